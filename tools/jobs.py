# property id -> what is simulated: (harness group, configurations drawn from per run, share of the time)
OP = 'seq,seq+alias+unalias,seq+leak,reject+text'
ALG = 'seq,seq,seq+leak,fault+nowf+lite'
def algs(cfg, w=0.2, skip=()):
    return [(g, cfg, w) for g in ('bfs', 'sssp', 'tri', 'mis', 'clust', 'flow', 'bc', 'utils') if g not in skip]


JOBS = {
    'C02': {'jobs': [('container', 'gmat+seq,gmat+seq+leak,gmat+reject+text,gmat+fault+leak', 1)]},
    'C03': {'jobs': [('container', 'gvec+seq,gvec+seq+leak,gvec+reject+text,gvec+fault+leak', 1)]},
    'C04': {'jobs': [('mxm', OP, 1)]},
    'C05': {'jobs': [('mv', OP, 1)]},
    'C06': {'jobs': [('ewise', OP, 1)]},
    'C07': {'jobs': [('extract', OP, 1)]},
    'C08': {'jobs': [('assign', OP, 1)]},
    'C09': {'jobs': [('apply', OP, 1)]},
    'C10': {'jobs': [('trkr', OP, 1)]},
    'C01': {'jobs': [('all', 'conc+solo', 3), ('views', 'conc+solo', 1), ('print', 'conc+solo', 1), ('container', 'conc+solo', 1)] + algs('conc+solo'), 'time': 52},
    'C11': {'jobs': [('all', 'seq+frame,seq+frame,alias+frame', 1)], 'time': 36},
    'C12': {'jobs': [('all', 'seq+alias+unalias', 1)], 'time': 36},
    'C13': {'jobs': [('all', 'fault+solo,fault+solo,fault+solo,sweep+solo', 3), ('container', 'gmat+fault+solo,gvec+fault+solo,gmat+sweep+solo,gvec+sweep+solo', 1)] + algs('fault+solo,fault+solo,sweep+solo'), 'time': 52, 'level': 'fault_enumeration'},
    'C14': {'jobs': [('all', 'seq+leak+nores,fault+leak+nores+nowf,fault+lifo+leak+nores+nowf,reject+leak+nores', 3), ('container', 'gmat+fault+leak+nores+nowf,gvec+fault+leak+nores+nowf,seq+leak+nores,reject+leak+nores', 1)] + algs('seq+leak+nores,fault+leak+nores+nowf'), 'time': 52},
    'C15': {'jobs': [('all', 'reject+text+nores', 3), ('container', 'gmat+reject+text+nores,gvec+reject+text+nores', 1), ('algrej', 'reject+text+leak+nores', 1)], 'time': 40},
    'C16': {'jobs': [('all', 'repeat+nores,repeat+lifo+nores,repeat+lifo+fault+nores+nowf,repeat+reject+nores', 3)] + algs('repeat+nores,repeat+lifo+nores,repeat+lifo+fault+nores+nowf'), 'time': 48},
    'C17': {'jobs': [('views', 'seq+view,alias+view,seq+leak', 1)], 'time': 36},
    'C18': {'jobs': [('print', 'sweep+leak,fault+leak,seq+leak,conc', 1)], 'time': 30, 'level': 'fault_enumeration'},
    'C21': {'jobs': [('bfs', ALG, 1)]},
    'C22': {'jobs': [('sssp', ALG, 1)]},
    'C23': {'jobs': [('tri', ALG, 1)]},
    'C19': {'jobs': [('mis', ALG, 1)]},
    'C20': {'jobs': [('clust', ALG, 1)]},
    'C24': {'jobs': [('flow', ALG, 1)]},
    'C25': {'jobs': [('bc', ALG, 1)]},
    'C26': {'jobs': [('utils', ALG, 1)]},
}
PARTS = {'assign': 2, 'extract': 2, 'all': 8, 'views': 5}
QUICK_O0 = {'all', 'container', 'views', 'print'}     # groups compiled without optimisation in the quick tier (build time)
