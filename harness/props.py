"""Which histories and which clauses of the specification decide which property."""

CONTENT = {'phys', 'bracket', 'lrseq', 'lrtype', 'grammar', 'enc', 'order', 'lfcount', 'identity', 'lost', 'extra', 'ref',
           'iref', 'origin', 'meta', 'added', 'desc', 'slots', 'data', 'rows', 'framenum', 'nf', 'index', 'undec'}

# property: families, clauses ('raise' and 'det' count only in the cases made for that property), design models
PROPS = {
    'C01': dict(families=['layout_small', 'layout_rows', 'layout_big', 'layout_random', 'chunks'], clauses={'phys'},
                models=['MWriter']),
    'C02': dict(families=['layout_small', 'layout_rows', 'layout_big', 'layout_random', 'noformat'],
                clauses={'bracket', 'lrseq', 'lrtype'}, models=['MWriter']),
    'C03': dict(families=['data', 'data_each', 'sources', 'mapping', 'chunks', 'many'], clauses={'data', 'rows', 'framenum', 'raise'},
                models=['MRows', 'MSource', 'MShape']),
    'C04': dict(families=['meta_random', 'meta_each', 'meta_nested', 'order'], clauses={'grammar'}, models=['MOracle', 'MLatitude']),
    'C05': dict(families=['meta_random', 'meta_each', 'meta_nested', 'numtext'],
                clauses={'meta', 'ref', 'added', 'lost', 'extra', 'raise'}, models=['MAttr', 'MLatitude']),
    'C06': dict(families=['prim', 'meta_each', 'failclosed'], clauses={'enc', 'grammar', 'meta'}, models=['MAttr', 'MCodec']),
    'C07': dict(families=['idents', 'multi', 'meta_nested'],
                clauses={'identity', 'ref', 'iref', 'origin', 'lost', 'extra', 'raise'}, models=['MNaming']),
    'C08': dict(families=['data', 'data_each', 'sources', 'index_wide'], clauses={'desc', 'slots'}, models=['MChannel', 'MShape']),
    'C09': dict(families=['order', 'multi', 'idents'], clauses={'order', 'lfcount', 'lrtype', 'raise'},
                models=['MNaming', 'MStruct']),
    'C10': dict(families=['chunks', 'windows', 'many'], clauses={'prefix', 'size', 'det', 'raise'},
                models=['MWriter', 'MRows']),
    'C11': dict(families=['sources', 'mapping', 'windows', 'data_each'], clauses={'det', 'data', 'rows', 'raise'},
                models=['MRows', 'MSource']),
    'C12': dict(families=['failclosed', 'data_failed', 'reject_each', 'hc_breach'], clauses=CONTENT | {'accepted'},
                models=['MSource', 'MStruct', 'MAttr', 'MShape']),
    'C13': dict(families=['index', 'index_wide', 'rewrite'], clauses={'index', 'raise'}, models=['MIndex']),
    'C14': dict(families=['history', 'rewrite', 'data_failed'], clauses={'det', 'raise'}, models=['MHistory', 'MSource', 'MChannel']),
    'C15': dict(families=['layout_small', 'layout_rows', 'layout_big', 'layout_random'],
                clauses={'raise', 'phys', 'bracket'}, models=['MWriter']),
    'C16': dict(families=['noformat', 'layout_small', 'layout_big'], clauses={'nf', 'raise'},
                models=['MWriter', 'MStruct']),
    'C17': dict(families=['hc_breach', 'hc_context', 'hc_files'], clauses={'hcacc', 'hcwarn', 'hcleak', 'hcfsn', 'raise'},
                models=['MMode', 'MMember']),
    'C18': dict(families=['multi', 'shared_sets', 'idents', 'order'],
                clauses={'lost', 'extra', 'lfcount', 'identity', 'ref', 'iref', 'origin', 'rows', 'framenum', 'data', 'nf',
                         'raise'}, models=['MNaming', 'MStruct']),
    'C19': dict(families=['data', 'data_each', 'data_failed', 'sources', 'windows', 'index'], clauses={'mut'},
                models=['MRows', 'MSource']),
    'C20': dict(families=['reject', 'reject_each', 'data_failed', 'shared_sets'], clauses=CONTENT | {'det', 'raise'},
                models=['MHistory', 'MNaming', 'MAttr']),
}


def relevant(prop, case, clause):
    p = PROPS[prop]
    if clause == 'undec':
        return bool(p['clauses'] & CONTENT)
    if clause not in p['clauses']:
        return False
    meta = case.get('meta', {})
    if clause == 'raise':
        return prop in meta.get('raise_', ())
    if clause == 'det':
        return prop in meta.get('det', ())
    return True
