"""property id -> harness module holding check_<id>(ctx)"""
CHECKS = {
    'C01': 'c_datastore', 'C02': 'c_datastore', 'C03': 'c_datastore',
    'C04': 'c_ebsd', 'C05': 'c_ebsd', 'C07': 'c_ebsd', 'C06': 'c_graindata', 'C08': 'c_graindata',
    'C14': 'c_quat', 'C15': 'c_quat',
    'C16': 'c_xtal', 'C17': 'c_xtal', 'C18': 'c_xtal',
    'C09': 'c_dic', 'C10': 'c_dic', 'C11': 'c_dic', 'C21': 'c_dic', 'C22': 'c_dic',
    'C12': 'c_exp', 'C13': 'c_exp',
    'C19': 'c_file', 'C20': 'c_file', 'C30': 'c_file',
    'C23': 'c_insp', 'C24': 'c_link',
    'C29': 'c_prog', 'C31': 'c_plot', 'C32': 'c_plot',
    'C33': 'c_kern', 'C34': 'c_kern', 'C35': 'c_pole', 'C38': 'c_draw', 'C39': 'c_mis', 'C40': 'c_crys', 'C36': 'c_extra', 'C37': 'c_extra',
    'C25': 'c_ori', 'C26': 'c_ori', 'C27': 'c_ori', 'C28': 'c_ori',
}
