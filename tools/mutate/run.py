#!/usr/bin/env python3
"""run.py MUTANTS.jsonl RESULTS.jsonl [-j N]: for every mutant: do the 134 tests pass?  If so, which check reports it?  Works in scratch copies."""
import json, os, re, shutil, subprocess, sys, threading
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
D = 'sudachipy/dictionarylib/'
P = 'sudachipy/plugin/'
MAP = {D + 'dictionarybuilder.py': 'C07 C21 C23 C26 C03 C09', D + 'userdictionarybuilder.py': 'C21 C07 C09 C26', P + 'path_rewrite/numericparser.py': 'C16 C17 C15',
       'sudachipy/command_line.py': 'C20 C29 C26 C21', P + 'path_rewrite/join_numeric_plugin.py': 'C17 C15 C19', D + 'charactercategory.py': 'C13 C15', P + 'oov/mecab_oov_plugin.py': 'C14 C02 C15 C27 C19',
       'sudachipy/utf8inputtextbuilder.py': 'C12 C01 C14 C15', P + 'input_text/default_input_text_plugin.py': 'C11 C01 C15', P + 'path_rewrite/join_katakana_oov_plugin.py': 'C18 C15 C19',
       'sudachipy/tokenizer.pyx': 'C02 C14 C01 C05 C04 C15 C25 C29 C27', 'sudachipy/lattice.pyx': 'C02 C04 C18 C29', 'sudachipy/config.py': 'C19', D + 'categorytype.py': 'C13',
       D + 'lexiconset.py': 'C09 C03 C06 C04 C05 C25', D + 'grammar.py': 'C23 C08 C09 C02 C22 C25', D + 'wordinfolist.py': 'C06 C08 C05 C07', D + 'doublearraylexicon.py': 'C03 C10 C08 C22 C25',
       P + 'path_rewrite/path_rewrite_plugin.py': 'C17 C18', 'sudachipy/utf8inputtext.py': 'C12 C01 C14', 'sudachipy/morphemelist.py': 'C28 C05 C06 C01 C10 C15', P + 'input_text/prolongedsoundmark.py': 'C11 C27 C19',
       'sudachipy/latticenode.pyx': 'C02 C05 C06 C17 C09 C29', D + 'dictionaryheader.py': 'C08 C26', 'sudachipy/dictionary.py': 'C11 C27 C19 C09 C25 C10 C22', D + 'jtypedbytebuffer.py': 'C07 C08',
       D + 'wordparameterlist.py': 'C10 C08 C22 C25', D + 'binarydictionary.py': 'C22 C08 C25', D + 'dictionaryversion.py': 'C08 C22', 'sudachipy/morpheme.py': 'C28 C06 C05',
       P + 'oov/simple_oov_plugin.py': 'C14 C15 C27', D + 'wordidtable.py': 'C03 C08 C25', P + 'connect_cost/inhibitconnectioncost.py': 'C23', P + 'connect_cost/editconnectioncost.py': 'C22 C23',
       D + 'wordinfo.py': 'C06', 'sudachipy/__init__.py': 'C20 C19', P + 'oov/oov_provider_plugin.py': 'C14', P + 'input_text/input_text.py': 'C11'}
for k in ('input_text', 'oov', 'path_rewrite'):
    MAP[P + k + '/utils.py'] = 'C27 C19'
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, LC_ALL='C.UTF-8', PYTHONUTF8='1', PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore', SETUPTOOLS_SCM_PRETEND_VERSION='0.5.4',
           VERIF_HANG_S='25', VERIF_BUDGET_S='200')


def sh(cmd, cwd, timeout, env=ENV):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, shell=isinstance(cmd, str), executable='/bin/bash' if isinstance(cmd, str) else None)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -9, 'timeout'


TEST = ('R=tests/resources; rm -f $R/*.dic; S="timeout 30 %s -B -m sudachipy.command_line"; $S build -o $R/system.dic -d "the system dictionary for the unit tests" -m $R/dict/matrix.def $R/dict/lex.csv '
        '&& $S ubuild -o $R/user.dic -s $R/system.dic $R/dict/user.csv && $S ubuild -o $R/large_user.dic -s $R/system.dic $R/dict/large_user.csv; '
        'timeout 60 %s -B -m pytest -x -q -p no:cacheprovider --timeout=20 tests 2>&1 | tail -1') % (PY, PY)


def worker(k, take, put):
    base = '/tmp/mut/%d' % k
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base + '/verif')
    repo = base + '/repo'
    subprocess.check_call(['cp', '-a', os.environ.get('VERIF_REPO', '/repo'), repo])
    subprocess.check_call(['git', '-C', repo, 'checkout', '-q', '--', '.'])
    for x in ('check.py', 'mc', 'KNOWN_FINDINGS.txt'):
        subprocess.check_call(['cp', '-a', os.path.join(V, x), base + '/verif'])
    while True:
        m = take()
        if m is None:
            break
        f = os.path.join(repo, m['file'])
        orig = open(f, 'rb').read()
        new = orig[:m['a']] + m['new'].encode() + orig[m['b']:]
        if m['old'].strip() == '' and m['new'] == '':
            continue
        try:
            with open(f, 'wb') as g:
                g.write(new)
            if f.endswith('.py'):
                try:
                    compile(new, f, 'exec')
                except SyntaxError:
                    m['result'] = 'syntax'
                    put(m)
                    continue
            else:
                rc, out = sh('%s setup.py build_ext --inplace > /dev/null 2>&1' % PY, repo, 300)
                if rc:
                    m['result'] = 'syntax'
                    put(m)
                    continue
            rc, out = sh(TEST, repo, 120)
            if '134 passed' not in out:
                m['result'] = 'tests'
                put(m)
                continue
            m['result'] = 'SURVIVED'
            m['ran'] = []
            for c in m.get('checks') or MAP.get(m['file'], '').split():
                rc, out = sh([PY, '-B', 'check.py', c], base + '/verif', 600, dict(ENV, VERIF_REPO=repo, VERIF_NPROC='2'))
                m['ran'].append(c)
                if rc == 1 and 'VIOLATION' in out:
                    s = re.search(r'^section (\S+):', out, re.M)
                    m['result'] = 'caught'
                    m['by'] = '%s/%s' % (c, s.group(1) if s else '?')
                    break
                if rc not in (0, 1):
                    m['odd'] = '%s exit %d %s' % (c, rc, out[-300:])
                    if rc == 2:
                        break
            put(m)
        finally:
            with open(f, 'wb') as g:
                g.write(orig)
            if not f.endswith('.py'):
                sh('%s setup.py build_ext --inplace > /dev/null 2>&1' % PY, repo, 300)


def main():
    src, dst = sys.argv[1:3]
    j = int(sys.argv[4]) if len(sys.argv) > 4 else 4
    done = set()
    if os.path.exists(dst):
        done = {json.loads(l)['id'] for l in open(dst)}
    todo = [m for m in map(json.loads, open(src)) if m['id'] not in done]
    by = {}
    for m in todo:
        by.setdefault(m['file'], []).append(m)
    order = []
    while by:       # round robin over the files
        for f in list(by):
            order.append(by[f].pop(0))
            if not by[f]:
                del by[f]
    lock = threading.Lock()
    it = iter(order)

    def take():
        with lock:
            return next(it, None)

    def put(m):
        with lock, open(dst, 'a') as g:
            g.write(json.dumps(m, ensure_ascii=False) + '\n')
    ts = [threading.Thread(target=worker, args=(k, take, put)) for k in range(j)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    shutil.rmtree('/tmp/mut', ignore_errors=True)


main()
