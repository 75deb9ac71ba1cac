"""What each check consists of: the harness units, flags and numbers of cases
(per worker; 8 workers)."""
# units that do not include the library
UNITS = {'core': False, 'num': False, 'oracle': False, 'lit': False}
CORE = ['core', 'num', 'oracle']
FWD = ['fwd', 'fwd_f', 'fwd_d', 'fwd_l', 'fwdm', 'fwdm_f', 'fwdm_d', 'fwdm_l', 'fwdgen']
REV = ['rev', 'rev_f', 'rev_d', 'rev_l', 'revgen']
A_MPFR = 'MPFR 4.2.1 evaluates correctly at high precision in an unrestricted exponent range (the oracle computes with it at 160 bits and more, the library with the precision and exponent range of the bound type)'
A_INST = 'bound types float, double and long double (x87) on x86-64 with gcc 13'

ANY = FWD + REV + ['qry', 'qry_f', 'qry_d', 'qry_l', 'con', 'io', 'lit', 'red', 'any']
QRY = ['qry', 'qry_f', 'qry_d', 'qry_l']

def c(units, quick, thorough, **kw):
    return dict(dict(units=units, quick=quick, thorough=thorough, assumptions=[A_MPFR, A_INST]), **kw)

CHECKS = {
    'A01': c(CORE + FWD + ['prop_A01'], 400000, 20000000),
    'A02': c(CORE + FWD + ['prop_A02'], 400000, 20000000),
    'A03': c(CORE + FWD + ['prop_A03'], 400000, 20000000),
    'A04': c(CORE + FWD + ['prop_A04'], 700000, 30000000),
    'A05': c(CORE + FWD + REV + ['prop_A05'], 250000, 12000000),
    'A06': c(CORE + FWD + REV + ['prop_A06'], 500000, 25000000),
    'A07': c(CORE + FWD + REV + ['prop_A07'], 1000000, 60000000),
    'A08': c(CORE + FWD + REV + ['prop_A08'], 1000000, 60000000),
    'A09': c(CORE + FWD + REV + ['prop_A09'], 1000000, 60000000),
    'A10': c(CORE + FWD + REV + QRY + ['prop_A10'], 1500000, 80000000),
    'A11': c(CORE + FWD + REV + QRY + ['prop_A11'], 1200000, 60000000),
    'A12': c(CORE + FWD + REV + QRY + ['prop_A12'], 1500000, 80000000),
    'A13': c(CORE + ['con', 'prop_A13'], 1500000, 80000000),
    'A17': c(CORE + FWD + REV + QRY + ['prop_A17'], 500000, 25000000),
    'A18': c(CORE + FWD + REV + QRY + ['prop_A18'], 300000, 12000000),
    'A14': c(CORE + ['io', 'lit', 'prop_A14'], 400000, 20000000),
    'A15': c(CORE + ['io', 'lit', 'prop_A15'], 500000, 25000000),
    'A16': c(CORE + ['io', 'lit', 'prop_A16'], 300000, 15000000),
    'A27': c(CORE + FWD + REV + ['prop_A27'], 300000, 12000000),
    'A29': c(CORE + ['io', 'lit', 'prop_A29'], 200000, 10000000),
    'A30': c(CORE + ['io', 'lit', 'prop_A30'], 900, 60000, locales=True),
    'A28': c(CORE + FWD + REV + QRY + ['prop_A28'], 400000, 16000000),
    'A20': c(CORE + ANY + ['prop_A20'], 400000, 20000000),
    'A21': c(CORE + ['red', 'prop_A21'], 500000, 25000000),
    'A19': c(CORE + ['lit', 'prop_A19'], 300000, 15000000),
    'A23': c(CORE + ['io', 'lit', 'prop_A23'], 200000, 15000000),
    'A24': c(CORE + ANY + ['prop_A24'], 60000, 4000000, variants=[dict(tag='asan', flags=['-O1', '-g', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all'], quick=16000, thorough=1000000)]),
    'A31': c(CORE + ANY + ['prop_A31'], 60000, 4000000, peers=[
        dict(cxx='g++', std='c++23', flags=['-O0', '-funsigned-char', '-D_GLIBCXX_ASSERTIONS', '-ftrivial-auto-var-init=pattern']),
        dict(cxx='g++', std='c++17', flags=['-O3', '-mfma', '-ffp-contract=fast', '-DNDEBUG']),
        dict(cxx='clang++', std='c++11', flags=['-O2', '-ftrivial-auto-var-init=zero'], overlay=[('p1788/reduction/reduction.hpp', 'new mpfr_t;', 'new __mpfr_struct[1];')])]),   # clang 18 takes `new mpfr_t` in a lambda of a template for a pointer to an array
    'A32': c(CORE + ['io', 'lit', 'prop_A32'], 150000, 8000000),
    'A33': c(CORE + ANY + ['prop_A33'], 130000, 12000000),
    'A34': c(CORE + ['prop_A34'], 2000000, 100000000),
    'A25': dict(custom='multi', assumptions=[A_INST]),
    'A22': c(CORE + ANY + ['prop_A22'], 200000, 10000000),
    'A26': c(CORE + ANY + ['prop_A26'], 4000, 250000, variants=[dict(tag='tsan', flags=['-O1', '-g', '-fsanitize=thread'], quick=600, thorough=60000)]),
}
