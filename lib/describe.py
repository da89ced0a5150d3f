"""C18: the texts that describe the functions, read entry by entry as a trace for spec/Describe.tla.

The reader only parses: it splits the XML into nodes <<tag, text, children>>, the header's comments and the
list of functions into their parts.  What a text has to say is in the specification."""
import glob, hashlib, json, os, re, shutil, subprocess
import xml.etree.ElementTree as ET


def sh(c, cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise c.CheckError('%s:\n%s' % (' '.join(cmd)[:300], r.stdout.decode(errors='replace')[-2000:]))


def texts(c):
    """builds the generator, lets it print, and makes the array of TA_FunctionDescriptionXML() as the build does"""
    out = os.path.join(c.BUILD, 'describe')
    shutil.rmtree(out, ignore_errors=True)
    tree = os.path.join(out, 'tree')
    os.makedirs(os.path.join(tree, 'c', 'bin'))
    top = os.path.join(c.REPO, 'ta-lib-rt')
    src = os.path.join(c.C, 'src')
    gc = os.path.join(src, 'tools', 'gen_code')
    inc = ['-I' + x for x in (gc, os.path.join(c.C, 'include'), *(os.path.join(src, x) for x in ('ta_abstract', 'ta_abstract/frames', 'ta_common', 'ta_func')))]
    cs = [os.path.join(src, 'ta_abstract', x) for x in ('ta_abstract.c', 'ta_def_ui.c', 'ta_group_idx.c')]
    for g in (os.path.join(gc, 'print_*.c'), os.path.join(src, 'ta_abstract', 'tables', '*.c'), os.path.join(src, 'ta_common', '*.c')):
        cs += sorted(glob.glob(g))
    gen = os.path.join(out, 'gen')
    cmd = ['gcc', '-w', '-O0', '-g', '-DTA_GEN_CODE', *inc, os.path.join(c.ROOT, 'driver', 'gen.c'), *cs, '-lm', '-o', gen]
    can = True
    try:
        sh(c, cmd)
    except c.CheckError as e:
        can = False                              # the printing function has another name or signature now
        c.log('without what the generator prints:', e)
        sh(c, cmd + ['-DNO_PRINT'])

    def run(mode, cwd=out):
        r = subprocess.run([gen, mode], stdout=subprocess.PIPE, cwd=cwd, timeout=120)
        return r.returncode, r.stdout
    shutil.copy(os.path.join(top, 'ta_func_api.xml'), tree)
    os.makedirs(os.path.join(tree, 'c', 'src', 'ta_abstract'))
    shutil.copytree(os.path.join(src, 'ta_abstract', 'templates'), os.path.join(tree, 'c', 'src', 'ta_abstract', 'templates'))
    array = b''
    if run('api', os.path.join(tree, 'c', 'bin'))[0] == 0:
        show = os.path.join(out, 'show.c')
        with open(show, 'w') as f:
            f.write('#include <stdio.h>\nconst char *TA_FunctionDescriptionXML(void);\n'
                    'int main(void) { return fputs(TA_FunctionDescriptionXML(), stdout) < 0; }\n')
        sh(c, ['gcc', '-w', '-O0', '-fsanitize=address', *inc, os.path.join(tree, 'c', 'src', 'ta_abstract', 'ta_func_api.c'), show, '-o', os.path.join(out, 'show')])
        r = subprocess.run([os.path.join(out, 'show')], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        array = r.stdout if r.returncode == 0 else b''
    with open(os.path.join(top, 'ta_func_api.xml'), 'rb') as f:
        shipped = f.read()
    rc, printed = run('print') if can else (0, b'')
    printed = can and b'<FinancialFunctionGroups>' + (printed if rc == 0 else b'') + b'</FinancialFunctionGroups>'
    fields = {}
    for ln in run('fields')[1].decode(errors='replace').split('\n'):
        w = ln.split(' ')
        fields[w[0]] = [[{'1': 'Double', '2': 'Integer', '3': 'Pointer'}.get(x.split(':')[0], 'unknown'), x.split(':', 2)[2]] for x in w[1:] if x]
    rd = lambda p: open(p, encoding='utf-8', errors='replace').read()
    return dict(shipped=shipped, array=array, printed=printed, fields=fields,
                list=rd(os.path.join(top, 'ta_func_list.txt')), header=rd(os.path.join(c.C, 'include', 'ta_func.h')))


def node(x, real, reals):
    kids = []
    inreal = any(k.tag == 'Type' and k.text == 'Double' for k in x) if x.tag == 'OptionalInputArgument' else real
    text = x.text or '' if len(x) == 0 else ''
    if len(x) == 0 and inreal and x.tag in ('Minimum', 'Maximum', 'SuggestedStart', 'SuggestedEnd', 'SuggestedIncrement', 'DefaultValue'):
        if number(text):
            reals.append(text)
            text = '#'
    for k in x:
        kids.append(node(k, inreal, reals))
    return [x.tag, text, kids]


def number(s):
    try:
        float(s)
    except ValueError:
        return False
    return True


def described(src, text, fields):
    try:
        root = ET.fromstring(text)
    except ET.ParseError as e:
        return [dict(e='malformed', src=src, why=str(e))]
    ev = []
    for x in root:
        reals = []
        tree = node(x, False, reals)
        name = next((k[1] for k in tree[2] if k[0] == 'Abbreviation'), '')
        ev.append(dict(e='tree', src=src, name=name, fields=fields.get(name, []), tree=tree, reals=reals))
    return ev + [dict(e='end', src=src)]


def listed(text):
    ev = []
    for ln in text.split('\n'):
        if ln.strip():
            w = ln.split(None, 1)
            ev.append(dict(e='list', name=w[0], hint=w[1] if len(w) > 1 else ''))
    return ev + [dict(e='end', src='list')]


WORDS = {'TA_REAL_MIN': '-3e37', 'TA_REAL_MAX': '3e37', 'TA_INTEGER_MIN': '-2147483647', 'TA_INTEGER_MAX': '2147483647'}


def documented(text):
    ev = []
    for com in re.findall(r'/\*(.*?)\*/', text, re.S):
        ls = [re.sub(r'^\s*\*\s?', '', x) for x in com.split('\n')]
        m = next((re.match(r'TA_(\w+) - (.*)$', x) for x in ls if re.match(r'TA_(\w+) - (.*)$', x)), None)
        if not m or not any(x.startswith('Input ') for x in ls):
            continue
        io = {k: [y.strip() for x in ls for mm in [re.match(k + r'\s*=\s*(.*)$', x)] if mm for y in mm.group(1).split(',')] for k in ('Input', 'Output')}
        opts = []
        for i, x in enumerate(ls):
            o = re.match(r'(optIn\w+):\s*(?:\(From (\S+) to ([^\s)]+)\))?', x)
            if o:
                opts.append(dict(n=o.group(1), range=[WORDS.get(y, y) for y in o.groups()[1:] if y], hint=re.sub(r'^   ', '', ls[i + 1]) if i + 1 < len(ls) else ''))
        ev.append(dict(e='doc', name=m.group(1), hint=m.group(2), ins=io['Input'], outs=io['Output'], opts=opts))
    return ev + [dict(e='end', src='header')]


def trace(c):
    t = texts(c)
    ev = [dict(e='copy', file=[len(t['shipped']), hashlib.sha256(t['shipped']).hexdigest()], array=[len(t['array']), hashlib.sha256(t['array']).hexdigest()])]
    for s in ('shipped', 'array', 'printed') if t['printed'] else ('shipped', 'array'):
        ev += described(s, t[s], t['fields'])
    return ev + listed(t['list']) + documented(t['header'])


def validate(c, path):
    return c.finish(c.tlc('Describe', env=[('TRACE', path)], timeout=600))


def check(c, run):
    """reads the texts of the working tree (a replay reads them again)"""
    ev = trace(c)
    c.log('read %d entries' % len(ev))
    path = os.path.join(c.BUILD, 'describe', 'trace.ndjson')
    with open(path, 'w') as f:
        f.write(''.join(json.dumps(e) + '\n' for e in ev))
    r = validate(c, path)
    for k in ('states', 'transitions'):
        run.stats[k] += r[k]
    run.stats['groups'] += 5
    run.stats['calls'] += len(ev)
    for e in ev:
        run.stats['events'][e['e']] = run.stats['events'].get(e['e'], 0) + 1
    run.stats['functions'] |= {e['name'] for e in ev if 'name' in e}
    run.samples += [json.dumps(ev[1])[:500], json.dumps(ev[-2])[:500]]
    c.evidence('C18', run, dict(texts=['ta_func_api.xml', 'TA_FunctionDescriptionXML()', 'print_xml() over TA_ForEachFunc()', 'ta_func_list.txt', 'ta_func.h']))
    if r['ok']:
        c.log('%d entries accepted' % len(ev))
        return 0
    if r['line'] is None:
        raise c.CheckError(r['text'][-3000:])
    d = os.path.join(c.ROOT, 'evidence', 'violations')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, 'C18-0.ndjson')
    shutil.copy(path, out)
    c.log('rejected entry %d: %s' % (r['line'], json.dumps(ev[r['line'] - 1])[:600]))
    print('VIOLATION property=C18 replay=%s' % out, flush=True)
    return 1
