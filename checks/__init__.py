"""property id -> (module, function)"""
REGISTRY = {
    'C01': ('effects', 'state_immutable'),
    'C02': ('effects', 'arguments_untouched'),
    'C03': ('effects', 'no_aliasing'),
    'C04': ('effects', 'history_independence'),
    'C05': ('determinism', 'reproducible'),
    'C06': ('determinism', 'order_free'),
    'C07': ('domains', 'refused'),
    'C08': ('domains', 'accepted'),
    'C09': ('documents', 'documents'),
    'C10': ('options', 'options'),
    'C11': ('options', 'influence'),
    'C12': ('partial', 'partial'),
    'C13': ('equality', 'equality'),
    'C14': ('conversions', 'conversions'),
    'C15': ('attachment', 'attachment'),
    'C16': ('boundary', 'generator_errors'),
    'C17': ('boundary', 'confined'),
    'C18': ('boundary', 'plots'),
    'C19': ('boundary', 'exceptions'),
    'C20': ('patterns', 'classification'),
    'C21': ('termination', 'termination'),
    'C22': ('shapes', 'shapes'),
    'C23': ('structure', 'structure'),
    'C24': ('boundary', 'naming'),
    'C25': ('fixed', 'definitions'),
}
