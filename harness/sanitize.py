"""Builds and installs the memory sanitizer for numpy data (see poison.c); without a compiler it stays off."""
import os, sys, subprocess, hashlib, importlib.util, sysconfig
here = os.path.dirname(os.path.abspath(__file__))
MOD = None
WHY = ''


def build():
    import numpy
    src = os.path.join(here, 'poison.c')
    key = hashlib.md5(open(src, 'rb').read() + (sys.version + numpy.__version__).encode()).hexdigest()[:10]
    out = os.path.join(os.path.dirname(here), 'build')
    so = os.path.join(out, 'poison-{}.so'.format(key))
    if not os.path.exists(so):
        os.makedirs(out, exist_ok=True)
        tmp = '{}.{}.tmp'.format(so, os.getpid())
        cmd = ['gcc', '-O2', '-shared', '-fPIC', '-pthread', '-I' + sysconfig.get_paths()['include'],
               '-I' + numpy.get_include(), src, '-o', tmp]
        subprocess.run(cmd, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=120)
        os.replace(tmp, so)
    return so


def install():
    global MOD, WHY
    if os.environ.get('VERIF_NO_POISON'):
        WHY = 'switched off'
        return
    try:
        spec = importlib.util.spec_from_file_location('poison', build())
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        m.install()
        MOD = m
    except Exception as e:
        WHY = '{}: {}'.format(type(e).__name__, e)


def stats():
    return MOD.stats() if MOD is not None else (0, 0, 0)


if __name__ == '__main__':
    print(build())
