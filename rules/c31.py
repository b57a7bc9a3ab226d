"""
Value-dependence analysis of the conversion of relative times (for a trace,
numbers, times, missing times and sequences as symbolic values) and of trim2
and slice2: the times handed to trim and slice of every trace, the options
passed on, and which traces remain, in which order.
"""
S = {'stream': 'rf.rfstream.RFStream', 'self': 'rf.rfstream.RFStream'}
T = {'tr': 'rf.rfstream.RFTrace'}


def check(K):
    if K.P.functions.get('rf.rfstream.RFTrace._seconds2utc'):
        for f in ('time', 'times'):
            c = K.case('spec.c31.drive_' + f, 'c31.' + f, types=T)
            c.ret('times')
    c = K.case('spec.c31.drive_trim', 'c31.trim', types=S)
    c.calls('window and options', '.trim')
    c.fields('remaining traces', lambda b, n: n == 'traces')
    c.ret('stream')
    c = K.case('spec.c31.drive_slice', 'c31.slice', types=S)
    c.calls('window and options', '.slice')
    c.ret('slices')
    c = K.case('spec.c31.drive_defaults', 'c31.defaults', types=S)
    c.calls('window and options', '.trim', '.slice')
    c.ret('slices')
