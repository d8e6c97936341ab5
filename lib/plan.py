"""What each property's check consists of.

suites: random traces, name -> (number in quick, number in thorough)
walks:  (walk, (graph module, config), steps in quick, steps in thorough)
mc:     (module, config) whose invariants and properties are checked
"""
CHOICE_MC = ('ChoiceMCq', 'ChoiceMC.cfg')
CHOICE_WALK = ('choice', ('ChoiceMCq', 'ChoiceGraph.cfg'))
FIXED_MC = ('FixedMCq', 'FixedMC.cfg')
FIXED_WALK = ('fixed', ('FixedMCq', 'FixedGraph.cfg'))


TEXT_MC = ('TextMCq', 'TextMC.cfg')
TEXT_WALK = ('text', ('TextMCq', 'TextGraph.cfg'))
WRAP_MC = ('WrapMCq', 'WrapMC.cfg')
WRAP_WALK = ('wrap', ('WrapMCq', 'WrapGraph.cfg'))
PROFILE_MC = ('ProfileMCq', 'ProfileMC.cfg')
PROFILE_MCT = ('ProfileMCq', 'ProfileMCt.cfg')
PROFILE_WALK = ('profile', ('ProfileMCq', 'ProfileGraph.cfg'))
PROFILE_WALKT = ('profile', ('ProfileMCq', 'ProfileGrapht.cfg'))
RANGE_WALK = ('range', ('RangeMCq', 'RangeGraph.cfg'))


ZONE_WALK = ('zone', ('ZoneMCq', 'ZoneGraph.cfg'))


def ZONE_MC(x):
    return ('ZoneMCq', f'ZoneMC{x}.cfg')


def RANGE_MC(x):
    return ('RangeMCq', f'RangeMC{x}.cfg')


LIMBS_MC = ('LimbsMC', 'LimbsMC.cfg')


def FAR_MC(x):
    return ('FarMCq', f'FarMC{x}.cfg')


TREE_WALK = ('tree', ('TreeMCq', 'TreeGraph.cfg'))
TREE_WALKT = ('tree', ('TreeMCq', 'TreeGrapht.cfg'))
PROFILE = {
    'walks': [PROFILE_WALK + (3000, 0)],
    'walks_thorough': [PROFILE_WALKT + (0, 120000)],
    'mc': [PROFILE_MC], 'mc_thorough': [PROFILE_MCT],
}


def two_processes(check):
    """The same operations in two processes with different hash seeds."""
    import engine
    n = 120 if check.tier == 'quick' else 1200
    job = [{'suite': 'memo_procs', 'seed': check.seed, 'tier': check.tier,
            'lo': 0, 'hi': n}]
    a = engine.drive(job, check.work, '0')
    b = engine.drive(job, check.work, '4321')
    return [engine.join_processes(x, y) for x, y in zip(a, b)]


PLAN = {
    'C01': {
        'suites': {'choice_mixed': (300, 3000), 'fixed_mixed': (300, 3000),
                   'text': (200, 2000), 'word': (200, 2000),
                   'wrap': (200, 2000), 'based': (200, 2000),
                   'choice_big': (16, 80), 'fixed_big': (18, 90),
                   'text_big': (8, 60), 'wrap_big': (12, 60)},
        'walks': [CHOICE_WALK + (2000, 20000), FIXED_WALK + (1500, 20000),
                  TEXT_WALK + (1000, 10000), WRAP_WALK + (1000, 10000)],
        'mc': [CHOICE_MC, FIXED_MC],
    },
    'C03': {
        'suites': {'choice_norep': (600, 6000), 'choice_settings': (200, 2000)},
        'walks': [CHOICE_WALK + (6000, 60000)],
        'mc': [CHOICE_MC],
    },
    'C04': {
        'suites': {'choice_uniq': (600, 6000), 'choice_settings': (200, 2000),
                   'freq_uniq': (60, 600), 'memo_rejected': (150, 1500)},
        'walks': [CHOICE_WALK + (4000, 40000)],
        'mc': [CHOICE_MC],
    },
    'C05': {
        'suites': {'choice_settings': (800, 8000)},
        'walks': [CHOICE_WALK + (8000, 60000)],
        'mc': [CHOICE_MC],
    },
    'C09': {
        'suites': {'fixed_mixed': (300, 4000), 'fixed_streams': (300, 4000),
                   'fixed_settings': (400, 4000), 'fixed_live': (200, 2000),
                   'fixed_big': (12, 60)},
        'walks': [FIXED_WALK + (6000, 60000)],
        'mc': [FIXED_MC],
    },
    'C02': {
        'suites': {'stream': (500, 6000), 'stream_all': (40, 200),
                   'fixed_streams': (300, 3000),
                   'text': (250, 2500), 'word': (250, 2500),
                   'wrap': (250, 2500), 'fixed_big': (12, 60),
                   'text_big': (6, 40), 'wrap_big': (8, 40)},
        'walks': [FIXED_WALK + (2000, 20000), TEXT_WALK + (1000, 10000),
                  WRAP_WALK + (1000, 10000)],
        'mc': [FIXED_MC, ('StreamMCq', 'StreamMC.cfg')],
        'mc_thorough': [('StreamMCq', 'StreamMCt.cfg')],
    },
    'C08': {
        'suites': {'memo': (500, 6000), 'memo_settings': (250, 3000),
                   'memo_all': (24, 72), 'memo_wide': (260, 3000)},
        'mc': [('MemoMCq', 'MemoMC.cfg')],
        'mc_thorough': [('MemoMCq', 'MemoMCt.cfg')],
        'special': [two_processes],
    },
    'C07': {
        'suites': {'freq': (320, 2000), 'freq_many': (160, 1200),
                   'choice_weights': (400, 4000)},
        'walks': [CHOICE_WALK + (3000, 30000)],
        'mc': [CHOICE_MC],
    },
    'C06': {
        'suites': {'choice_mixed': (400, 4000), 'choice_settings': (200, 2000),
                   'fixed_settings': (150, 1500), 'text_counts': (400, 4000),
                   'wrap': (100, 1000), 'based': (100, 1000)},
        'walks': [CHOICE_WALK + (3000, 30000)],
        'mc': [CHOICE_MC, TEXT_MC],
    },
    'C10': {
        'suites': {'word': (700, 8000), 'alphabet': (150, 1500),
                   'text_long': (24, 160)},
        'walks': [TEXT_WALK + (2000, 20000)],
        'mc': [TEXT_MC],
    },
    'C11': {
        'suites': {'text': (700, 8000), 'text_vocab': (400, 4000),
                   'text_long': (24, 160)},
        'walks': [TEXT_WALK + (3000, 20000)],
        'mc': [TEXT_MC],
    },
    'C12': {
        'suites': {'wrap': (700, 8000), 'wrap_rejected': (300, 3000)},
        'walks': [WRAP_WALK + (3000, 30000)],
        'mc': [WRAP_MC],
    },
    'C13': {
        'suites': {'fields': (800, 8000), 'schema': (200, 2000)},
        **PROFILE,
    },
    'C14': {
        'suites': {'schema': (800, 8000)},
        **PROFILE,
    },
    'C15': {
        'suites': {'based': (800, 8000), 'actions': (200, 2000),
                   'schema': (200, 2000)},
        **PROFILE,
    },
    'C16': {
        'suites': {'tree': (600, 8000), 'fields': (300, 3000),
                   'schema': (200, 2000)},
        'walks': [TREE_WALK + (3000, 0), PROFILE_WALK + (1000, 0)],
        'walks_thorough': [TREE_WALKT + (0, 40000),
                           PROFILE_WALKT + (0, 40000)],
        'mc': [('TreeMCq', 'TreeMC.cfg')],
        'mc_thorough': [('TreeMCq', 'TreeMCt.cfg')],
    },
    'C17': {
        'suites': {'range_seq': (2400, 24000), 'far_seq': (1200, 16000),
                   'zone_seq': (500, 5000)},
        'walks': [RANGE_WALK + (4000, 40000)],
        'mc': [RANGE_MC('a'), LIMBS_MC],
        'mc_thorough': [FAR_MC('a')],
    },
    'C18': {
        'suites': {'range_find': (1600, 16000), 'range_eq': (1000, 10000),
                   'far_find': (1000, 12000), 'zone_find': (800, 8000)},
        'walks': [RANGE_WALK + (6000, 40000), ZONE_WALK + (4000, 40000)],
        'mc': [RANGE_MC('b'), RANGE_MC('c'), LIMBS_MC, ZONE_MC('b')],
        'mc_thorough': [FAR_MC('b'), FAR_MC('c'), ZONE_MC('a')],
    },
    'C19': {
        'suites': {'range_factory': (2000, 20000),
                   'far_factory': (1000, 12000),
                   'zone_factory': (500, 5000)},
        'walks': [RANGE_WALK + (2000, 20000), ZONE_WALK + (2000, 20000)],
        'mc': [RANGE_MC('a'), LIMBS_MC],
        'mc_thorough': [FAR_MC('a'), ZONE_MC('a')],
    },
    'C20': {
        'suites': {'group_list': (700, 8000), 'group_map': (700, 8000),
                   'group_act': (700, 8000)},
        'walks': [('group', ('GroupMCq', 'GroupGraph.cfg'), 4000, 40000)],
        'mc': [('GroupMCq', 'GroupMC.cfg')],
        'mc_thorough': [('GroupMCq', 'GroupMCt.cfg')],
    },
    'C21': {
        'suites': {'choice_rejected': (500, 5000),
                   'fixed_rejected': (300, 3000),
                   'wrap_rejected': (300, 3000), 'actions': (300, 3000),
                   'range_rejected': (500, 5000)},
        'walks': [CHOICE_WALK + (2000, 20000), FIXED_WALK + (1500, 15000),
                  WRAP_WALK + (1500, 15000)],
        'mc': [CHOICE_MC, FIXED_MC, WRAP_MC],
    },
    'C22': {
        'suites': {'deprec': (400, 4000), 'deprec_fresh': (9, 9),
                   'deprec_wrap': (150, 1500), 'fixed_deprecated': (500, 5000)},
        'walks': [('deprec', ('DeprecMCq', 'DeprecGraph.cfg'), 1600, 4000),
                  FIXED_WALK + (2000, 20000)],
        'mc': [('DeprecMCq', 'DeprecMC.cfg'), FIXED_MC],
    },
    'C23': {
        'suites': {'dist': (500, 6000), 'dist_fn': (300, 3000)},
        'mc': [('DistMCq', 'DistMC.cfg')],
    },
}
