"""property id -> (module, function)"""
REG = {
    'C19': ('tss', 'c19'), 'C20': ('tss', 'c20'), 'C21': ('tss', 'c21'), 'C22': ('tss', 'c22'),
    'C16': ('timeconv', 'c16'), 'C23': ('ctypes_', 'c23'), 'C24': ('ctypes_', 'c24'),
    'C01': ('native', 'c01'), 'C08': ('native', 'c08'), 'C09': ('native', 'c09'), 'C10': ('native', 'c10'), 'C11': ('native', 'c11'), 'C18': ('native', 'c18'), 'C26': ('native', 'c26'),
    'C12': ('events','c12'),'C13': ('events','c13'),'C14': ('events','c14'),'C15': ('events','c15'),'C17': ('events','c17'),'C25': ('events','c25'),
    'C02': ('word', 'c02'), 'C03': ('word', 'c03'), 'C04': ('locks', 'c04'), 'C05': ('locks', 'c05'), 'C06': ('locks', 'c06'), 'C07': ('locks', 'c07'),
}
TECH = {
    '*': 'path-sensitive dataflow/typestate analysis (abstract interpretation of LLVM IR, no solver, no execution)',
}
NOTE = {}
