"""A small finite element backend (numpy/PETSc/UFL) used to execute dxss without DOLFINx.

The public names of DOLFINx that dxss uses are provided by the sibling package
`dolfinx`, which is a thin façade over this one.
"""
