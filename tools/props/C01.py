title = 'Averaging a capacitance matrix symmetrises it and changes nothing else'
statement = '''For every square capacitance matrix, the averaged matrix has the same conductors in the same order, the same
diagonal, and in both cells of every off-diagonal pair the mean of the two original couplings. The original matrix is left
as it was.'''
quantifier = 'all matrix sizes and all cell values, symmetric or not, including size 0 and 1'
why = '''One 4x4 example is tested; a wrong index or an in-place update shows only for some sizes or asymmetries, and aliasing of
the original is not looked at.'''
files = ['klayout_pex/common/capacitance_matrix.py']
mechanism = [('loop over the upper triangle on a copy', 'CapacitanceMatrix.averaged_off_diagonals')]
observe = ['CapacitanceMatrix.averaged_off_diagonals() result and its argument']
note = '''All sizes and values, by loop invariants over an array theory. Real arithmetic instead of floats; copy.deepcopy is
modelled as a copy. The executed contract cross-checks with exact dyadic numbers.'''
