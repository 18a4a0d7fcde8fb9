from .core import Executor
def make(arch, opts):
    if arch == 'x86_64':
        from .x86 import X86
        return Executor(X86(64), opts)
    if arch == 'i386':
        from .x86 import X86
        return Executor(X86(32), opts)
    from .risc import make as mk
    return Executor(mk(arch), opts)
