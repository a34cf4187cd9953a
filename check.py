#!/opt/venv/bin/python
"""check.py Cxx [--tier quick|thorough] [--section NAME]... [--replay FILE]"""
import argparse
import importlib
import os
import sys

ENV = {'LC_ALL': 'C.UTF-8', 'PYTHONUTF8': '1', 'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
       'PYTHONWARNINGS': 'ignore', 'SETUPTOOLS_SCM_PRETEND_VERSION': '0.5.4', 'VERIF_ENV': '1'}


def main():
    if os.environ.get('VERIF_ENV') != '1':
        env = dict(os.environ, **ENV)
        for k in ('PYTHONPATH', 'PYTHONHOME'):
            env.pop(k, None)
        os.execve('/opt/venv/bin/python', ['/opt/venv/bin/python', '-B'] + sys.argv, env)
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--section', action='append')
    ap.add_argument('--replay')
    a = ap.parse_args()
    from mc import build, core
    try:
        mods = build.build()
    except build.BuildError as e:
        print(e)
        print('check.py: the tree does not build', file=sys.stderr)
        return 2
    name = a.property.lower()
    code = None
    try:
        pre = 'mc.props.%s_pre' % name
        if importlib.util.find_spec(pre):
            importlib.import_module(pre)      # runs before sudachipy is imported
        try:
            build.install(mods)
        except Exception as e:
            import traceback
            v = {'message': 'sudachipy cannot be imported: %r' % e, 'traceback': traceback.format_exc(), 'case': None}
            path = core.write_replay(a.property, 'import', v, a.tier)
            print(v['message'])
            print('VIOLATION property=%s replay=%s' % (a.property, path))
            return 1
        mod = importlib.import_module('mc.props.' + name)
        if a.replay:
            code = core.replay(mod, a.replay)
        else:
            code = core.run_property(mod, a.tier, int(os.environ.get('VERIF_SEED', '1') or 1), a.section)
    finally:
        core.Scratch.cleanup()
    return code


if __name__ == '__main__':
    import importlib.util
    sys.exit(main())
