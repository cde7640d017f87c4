"""Number types the driver knows: name -> (digit base, limb base, limbs per digit)."""
TYPES = {
    'lowp': (256, 256, 1), 'medp': (65536, 256, 2), 'highp': (2**32, 256, 4),
    'b2': (2, 2, 1), 'b8': (8, 8, 1), 'b10': (10, 10, 1), 'b16': (16, 16, 1),
    'b3': (3, 3, 1), 'b100': (100, 100, 1), 'b1000': (1000, 1000, 1),
    'b256': (256, 256, 1), 'b32k': (32768, 32, 3), 'b64k': (65536, 256, 2), 'b1g': (10**9, 1000, 3), 'w8': (256, 256, 1),
}
ALL = list(TYPES)
PREDEF = ['lowp', 'medp', 'highp', 'b2', 'b8', 'b10', 'b16']
