"""Parser for include-what-you-use's report, written from the documented format."""
import re

ADD = re.compile(r'^(.*) should add these lines:$')
REM = re.compile(r'^(.*) should remove these lines:$')
FULL = re.compile(r'^The full include-list for (.*):$')
OK = re.compile(r'^\((.*) has correct #includes/fwd-decls\)$')
LINES = re.compile(r'^(.*?)\s+// lines (\d+)-(\d+)$')


class Malformed(Exception):
    pass


class FileReport:
    def __init__(self, name):
        self.name = name
        self.add = []      # (text, comment)
        self.remove = []   # (text, first, last)
        self.full = []     # (text, comment)
        self.correct = False

    def adds(self):
        return sorted(t for t, _ in self.add)

    def removes(self):
        return sorted(t for t, _, _ in self.remove)

    def fulls(self):
        return sorted(t for t, _ in self.full)

    def summary(self):
        if self.correct:
            return 'ok'
        return {'add': self.adds(), 'remove': self.removes(),
                'full': self.fulls()}


def split_comment(line):
    i = line.find('  // ')
    if i < 0:
        return line.rstrip(), ''
    return line[:i].rstrip(), line[i + 2:].strip()


class Report:
    def __init__(self):
        self.files = {}
        self.order = []
        self.other = []    # lines outside any section: diagnostics

    def summary(self):
        return {f: self.files[f].summary() for f in self.order}


def parse(out):
    rep = Report()
    cur = None
    section = None
    for line in out.split('\n'):
        m = OK.match(line)
        if m and section is None:
            name = m.group(1)
            if name in rep.files:
                raise Malformed('two records for ' + name)
            f = FileReport(name)
            f.correct = True
            rep.files[name] = f
            rep.order.append(name)
            continue
        m = ADD.match(line)
        if m:
            if section is not None:
                raise Malformed('add section inside ' + section)
            name = m.group(1)
            if name in rep.files:
                raise Malformed('two records for ' + name)
            cur = FileReport(name)
            rep.files[name] = cur
            rep.order.append(name)
            section = 'add'
            continue
        m = REM.match(line)
        if m:
            if section != 'add' or m.group(1) != cur.name:
                raise Malformed('remove section out of order')
            section = 'remove'
            continue
        m = FULL.match(line)
        if m:
            if section != 'remove' or m.group(1) != cur.name:
                raise Malformed('full list out of order')
            section = 'full'
            continue
        if line == '---':
            if section != 'full':
                raise Malformed('end marker out of order')
            section = None
            cur = None
            continue
        if section is None:
            if line.strip():
                rep.other.append(line)
            continue
        if not line.strip():
            continue
        if section == 'add':
            cur.add.append(split_comment(line))
        elif section == 'full':
            cur.full.append(split_comment(line))
        else:
            m = LINES.match(line)
            if not line.startswith('- ') or not m:
                raise Malformed('odd removal: ' + line)
            cur.remove.append((m.group(1)[2:], int(m.group(2)),
                               int(m.group(3))))
    if section is not None:
        raise Malformed('unterminated record')
    return rep
