# Per-property configuration of the checks.
#   recorders   (binary, feature) pairs whose traces are validated against spec/MixedNum.tla
#   models      spec-level models that TLC checks exhaustively
#   generators  modules whose behaviours TLC enumerates and the recorder replays into the code
S = 'every call of the recorded histories is a transition the specification allows; '
PROPS = {
    'C01': dict(models=[
        dict(module='MC_Num', cfg='MC_Num', both=True, min=300, what='the exact arithmetic and real functions under the relation, against their defining inequalities, evaluated by definition and by the accelerators'),
        dict(module='MC_Complex', cfg='MC_Complex', min=1000, what='Complex allows what the concrete formulas compute on every operand pair of small types, and rejects anything off by more than the rounding')],
        recorders=[('c01', '')], note=S + 'inputs are sampled (boundary-biased), all element types and operand forms'),
    'C02': dict(recorders=[('c02', '')], generators=[
                    dict(name='programs', env='PROG_SHORT', module='Programs', cfg='Programs'),
                    dict(name='programs-long', env='PROG_LONG', module='ProgramsLong', cfg='ProgramsLong')],
                note=S + 'programs enumerated by TLC (all programs of up to two assignments, pseudo-random ones of twelve) are replayed on every element type'),
    'C03': dict(recorders=[('c03', '')], note=S + 'inputs are sampled, all element types and operand forms'),
    'C04': dict(recorders=[('c04', '')], note=S + 'inputs are sampled, all element types, scalar types and operand forms'),
    'C05': dict(models=[dict(module='MC_Polar', cfg='MC_ToPolar', min=5000, what='the polar form as a program of library calls, call by call in the arithmetic of every small type that holds pi; mirrored and shifted outcomes are rejected',
        controls=[dict(set={'Variant': 2}, what='arguments of the arctangent exchanged'), dict(set={'Variant': 3}, what='difference of the squares')])],
        recorders=[('c05', '')], note=S + 'sampled octants, axes, diagonals and extreme ratios on every type; a residue class of all pairs of the 8-bit types, all of them in the thorough tier'),
    'C06': dict(models=[dict(module='MC_Polar', cfg='MC_ToCart', min=5000, what='the cartesian form as a program of library calls, call by call in the arithmetic of every small type that holds pi; mirrored and shifted outcomes are rejected',
        controls=[dict(set={'Variant': 1}, what='sine and cosine exchanged')])],
        recorders=[('c06', '')], note=S + 'sampled magnitudes and angles including many turns, all signed fixed-point types and floats; every entry point'),
    'C07': dict(models=[dict(module='MC_Polar', cfg='MC_PMul', min=30000, what='polar and mixed products as programs of library calls, call by call in the arithmetic of every small type that holds pi; the zero rule',
        controls=[dict(set={'Variant': 4}, what='angles subtracted'), dict(set={'Variant': 5}, what='no zero rule'), dict(set={'Variant': 8}, what='sign of the imaginary part')])],
        recorders=[('c07', '')], note=S + 'sampled operands, all signed element types; every operand form; polar * cartesian must be callable'),
    'C08': dict(models=[dict(module='MC_Wrap', cfg='MC_Wrap', what='phase wrapping statement by statement on every value of every small type that holds pi',
        controls=[dict(set={'Variant': k}, what=w) for k, w in ((1, 'no remainder step'), (2, 'adding 2 pi at once'), (3, 'upper limit closed'))])],
        recorders=[('c08', '')], note=S + 'every value of the 8-bit types; sampled multiples of pi/2 and their neighbours elsewhere'),
    'C09': dict(models=[dict(module='MC_Niirf', cfg='MC_Niirf', what='the NIIRF square root statement by statement on every value of every small type',
        controls=[dict(set={'Variant': k}, what=w) for k, w in ((1, 'normalisation stops at 1'), (2, 'denormalisation factor 3'))])],
        recorders=[('c09', '')], note=S + 'every value of the 8-bit types; every segment boundary of the approximation and its neighbours elsewhere'),
    'C10': dict(models=[dict(module='MC_Atan2', cfg='MC_Atan2', what='the octant split of the polynomial arctangent on operand pairs of small types',
        controls=[dict(set={'Variant': k}, what=w) for k, w in ((1, 'third octant adds'), (2, 'eighth octant uses +pi'))]),
        dict(module='MC_Cordic', cfg='MC_CordicAtan', min=20000, what='the native fixed-point arctangent rotation by rotation on operand pairs of every small type that holds pi',
        controls=[dict(set={'Variant': k}, what=w) for k, w in ((3, 'the smaller component divides'), (4, 'third quadrant adds pi'))])],
        recorders=[('c10', '')], note=S + 'sampled octants, axes, diagonals and extreme ratios on every type; every value of the 8-bit types for the one-argument functions'),
    'C11': dict(recorders=[('c11', '')], note=S + 'every value of the 8-bit types; sampled angles elsewhere'),
    'C12': dict(models=[dict(module='MC_Cordic', cfg='MC_Cordic', min=5000, what='native sine, cosine, arcsine and arccosine rotation by rotation, every argument of every small type that holds pi',
        controls=[dict(set={'Variant': k, 'Widths': n}, what=w) for k, n, w in ((1, '{8}', 'sign of the half turn lost'), (2, '{8}', 'reduction stops at pi'),
            (6, '{10}', 'rotations start at the second table entry'), (7, '{9}', 'target of the arcsine does not grow'), (8, '{9}', 'arcsine from the root of 1 + x^2'))])],
        recorders=[('c12', '')], note=S + 'every value of the 8-bit types; sampled angles and ratios elsewhere'),
    'C13': dict(models=[dict(module='MC_Cordic', cfg='MC_CordicExp', min=50000, what='native exponential factor by factor, every argument of every small type that holds pi',
        controls=[dict(set={'Variant': 5, 'Widths': '{8}'}, what='one factor of e too few')])],
        recorders=[('c13', '')], note=S + 'sampled arguments, special values and both signs; sampled representable exponents for fixed point'),
    'C14': dict(models=[dict(module='MC_Powi', cfg='MC_Powi', what='integer powers multiplication by multiplication, every base and exponent of small types',
        controls=[dict(set={'Variant': k}, what=w) for k, w in ((2, 'one product too many'), (3, 'sign of the exponent lost'))])],
        recorders=[('c14', '')], note=S + 'sampled bases and exponents on all real types, every 8-bit base'),
    'C15': dict(models=[dict(module='MC_Polar', cfg='MC_CPow', min=15000, what='complex powers as a program of library calls, call by call in the arithmetic of every small type that holds pi',
        controls=[dict(set={'Variant': 6}, what='angle not multiplied')])],
        recorders=[('c15', '')], note=S + 'sampled bases in every quadrant and exponents on all fixed-point types'),
    'C16': dict(models=[dict(module='MC_Polar', cfg='MC_CExp', min=5000, what='the complex exponential as a program of library calls, call by call in the arithmetic of every small type that holds pi',
        controls=[dict(set={'Variant': 7}, what='scaled by the exponential of the imaginary part')])],
        recorders=[('c16', '')], note=S + 'sampled arguments, purely real and purely imaginary ones included'),
    'C17': dict(models=[dict(module='MC_Conv', cfg='MC_Conv', min=20000, what='conversions between small types, fraction bit by fraction bit, every value of every type',
        controls=[dict(set={'Variant': k}, what=w) for k, w in ((1, 'ties away from zero'), (2, 'floor instead of truncation'), (3, 'low bits instead of saturation'), (4, 'truncation instead of floor'))])],
        recorders=[('c17', '')], note=S + 'boundary-biased sampled values over all pairs of types'),
    'C18': dict(recorders=[('c18', '')], note=S + 'boundary-biased sampled values over pairs of types'),
    'C19': dict(recorders=[('c19', '')], note=S + 'every 8-bit value; sampled values, extremes and special values elsewhere'),
    'C20': dict(recorders=[('c20', '')], note=S + 'sampled positive values and decibels, special values'),
    'C21': dict(models=[dict(module='MC_Fmt', cfg='MC_Fmt', min=50000, what='printing digit by digit and padding space by space; all neighbouring texts are rejected',
        controls=[dict(set={'Variant': k}, what=w) for k, w in ((1, 'prefix only once'), (2, 'plus flag ignored'), (3, 'sign of the second part dropped'), (4, 'padding on the right'), (5, 'padding without std'))])],
        recorders=[('c21', ''), ('c21', 'std')], note=S + 'sampled values, flags, widths and precisions, with and without the std feature; the decimal text itself is checked against the number'),
    'C22': dict(recorders=[('c22', '')], note=S + 'sampled bit patterns; a watchdog turns a call that does not return into an event the specification rejects'),
    'C23': dict(models=[dict(module='MC_Cmp', cfg='MC_Cmp', min=5000, what='comparison of every triple of small complex numbers: equality, order laws, exactly one outcome allowed',
        controls=[dict(set={'Variant': k}, what=w) for k, w in ((1, 'second component first'), (2, 'equal first components suffice'), (3, 'NaN equals NaN'), (4, 'second component decides an unordered first'))])],
        recorders=[('c23', '')], note=S + 'sampled pairs that differ in no, one or both components'),
    'C24': dict(recorders=[('c24', '')], generators=[dict(name='sessions', env='SESSIONS', module='Sessions', cfg='Sessions')],
        note=S + 'sessions enumerated by TLC (every sequence of up to two operations over the register file, pseudo-random ones of 24; thorough: three, and 40) are replayed on every signed type, and again by four concurrent threads'),
}
