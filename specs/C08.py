from c2why import Fn, L
NATIVE = [{'src': 'arch.c', 'budget': 40, 'cflags': ['-DVP_ARCH_HCUB']}]
CBMC = [{'src': 'hcub.c', 'fns': {n: 36 for n in 'archHcubDomNum archHcubDomTerm archHcubDomSize archHcubDomDist archHcubDomFrst archHcubDomBipart archHcubDomIncl'.split()}},
        {'src': 'vhcub.c', 'fns': {n: 36 for n in 'archVhcubDomNum archVhcubDomTerm archVhcubDomDist archVhcubDomFrst archVhcubDomBipart archVhcubDomIncl'.split()}}]
FNS = []
NOTE = 'Proved with CBMC on the real functions (bit-precise, loops bounded by the word width with unwinding assertions). File round trips bounded.'
BOUNDED = ['load/save of architectures and domains (stdio)']
