"""property -> specification module and companion harness (program, sources of /repo linked into it)"""
REG = {
    'P01': dict(spec='ell', harness='ell', src=['ell.cpp']),
    'P02': dict(spec='ell', harness='ell', src=['ell.cpp']),
    'P03': dict(spec='ell', harness='ell', src=['ell.cpp']),
    'P04': dict(spec='ell', harness='ell', src=['ell.cpp']),
    'P05': dict(spec='stable', harness='stable', src=['ell.cpp', 'ell_stable.cpp'], lean=['stable']),
    'P06': dict(spec='ell1d', harness='ell1d', src=['ell1d.cpp'], asan=False),
    'P07': dict(spec='cutting', harness='cutting', asan=False, src=[], libs=[]),
    'P08': dict(spec='cutting', harness='cutting', asan=False, src=[], libs=[]),
    'P09': dict(spec='cutting', harness='cutting', asan=False, src=[], libs=[]),
    'P10': dict(spec='cutting', harness='cutting', asan=False, src=[], libs=[]),
    'P11': dict(spec='cutting', harness='cutting', asan=False, src=[], libs=[]),
    'P12': dict(spec='ldlt', harness='ldlt', src=['ldlt_ext.cpp'], lean=['ldl']),
    'P13': dict(spec='ldlt', harness='ldlt', src=['ldlt_ext.cpp'], lean=['ldl']),
    'P14': dict(spec='lmi', harness='lmi', src=['lmi_oracle.cpp', 'lmi0_oracle.cpp', 'lmi_old_oracle.cpp', 'ldlt_ext.cpp', 'qmi_oracle.cpp'], lean=['ldl']),
    'P15': dict(spec='lmi', harness='lmi', src=['lmi_oracle.cpp', 'lmi0_oracle.cpp', 'lmi_old_oracle.cpp', 'ldlt_ext.cpp', 'qmi_oracle.cpp'], lean=['ldl']),
    'P16': dict(spec='lowpass', harness='lowpass', src=['lowpass_oracle.cpp']),
    'P17': dict(spec='profit', harness='profit', src=['profit_oracle.cpp'], lean=['profit']),
    'P18': dict(spec='profit', harness='profit', src=['profit_oracle.cpp'], lean=['profit']),
    'P19': dict(spec='negcycle', harness='graph', asan=False, src=[], libs=['-lopenblas', '-Wl,-rpath,/usr/lib/x86_64-linux-gnu/openblas-pthread'], lean=['negcycle']),
    'P20': dict(spec='network', harness='graph', asan=False, src=[], libs=['-lopenblas', '-Wl,-rpath,/usr/lib/x86_64-linux-gnu/openblas-pthread'], lean=['negcycle']),
    'P21': dict(spec='network', harness='graph', asan=False, src=[], libs=['-lopenblas', '-Wl,-rpath,/usr/lib/x86_64-linux-gnu/openblas-pthread'], lean=['negcycle']),
    'P22': dict(spec='frac', harness='frac', asan=False, src=[], libs=[], lean=['gcd']),
    'P23': dict(spec='csd', harness='csd', asan=False, src=['csd.cpp'], libs=[]),
    'P24': dict(spec='csd', harness='csd', asan=False, src=['csd.cpp'], libs=[]),
    'P25': dict(spec='pyc', harness='pyc', asan=False, src=[], libs=[]),
    'P26': dict(spec='corr', harness='corr', src=['ell.cpp', 'lmi_oracle.cpp', 'lmi0_oracle.cpp', 'ldlt_ext.cpp', 'qmi_oracle.cpp'], lean=['ldl']),
    'P28': dict(spec='bgl', harness='bgl', asan=False, src=[], libs=[]),
    'P27': dict(spec='corr', harness='corr', src=['ell.cpp', 'lmi_oracle.cpp', 'lmi0_oracle.cpp', 'ldlt_ext.cpp', 'qmi_oracle.cpp']),
}
LEVEL_NOTES = {}
NOT_CLAIMED = {}
