"""compiles /repo's current sources into a library for replaying"""
import subprocess, os
def compile_lib(repo, out, srcs, flags=(), ubsan=False, extra=()):
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cmd = ['clang', '-shared', '-fPIC', '-O1', '-g', '-w', '-std=gnu99', '-fno-strict-aliasing', '-I' + repo, '-I' + repo + '/test'] + list(flags)
    if ubsan: cmd += ['-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable,return', '-fsanitize-trap=all']
    cmd += ['-o', out] + [s if s.startswith('/') else repo + '/' + s for s in srcs] + list(extra) + ['-lm']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise RuntimeError('compile failed: ' + r.stderr[-2000:])
    return out
