CHECKS = {
    'P01': ('splines', 'p_interp'),
    'P02': ('splines', 'p_domain'),
    'P03': ('mlp', 'p_value'),
    'P04': ('mlp', 'p_grad'),
    'P05': ('mpoly', 'p_value'),
    'P06': ('mpoly', 'p_grad'),
    'P07': ('session', 'p_history'),
    'P08': ('zbl', 'p_zbl'),
    'P09': ('tools', 'p_tools'),
    'P10': ('mace', 'p_force'),
    'P11': ('mace', 'p_energy'),
    'P12': ('session', 'p_bounds'),
    'P13': ('calc', 'p_calc'),
    'P14': ('calc', 'p_init'),
    'P15': ('bindings', 'p_bind'),
    'P16': ('pair', 'p_pair'),
    'P17': ('pair', 'p_setup'),
    'P18': ('kokkos', 'p_value'),
    'P19': ('kokkos', 'p_memory'),
    'P20': ('mkokkos', 'p_mace'),
    'P21': ('extract', 'p_extract'),
}
