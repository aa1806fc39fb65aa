"""
Generate DESIGN.md from the head, the registered checks and the tail.
"""
import ast, json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

WHY = {
'C01': "Reference: entities as plain sets computed from vertex sets of the mesh. Reaches what tests cannot: the interplay of the kind of the requested region, the parent, the order of operators and emptiness.",
'C02': "Reference: graph reachability/topological order; solutions of blocks compared with the monolithic solution.",
'C03': "Reference: entities as vertex sets, incidence by inclusion. Vertex renumberings change every orientation and local index decision in the C code.",
'C04': "Reference: union-find over DOFs tied by periodic conditions and a last-key-wins table of essential values.",
'C05': "Reference: own time stepping recurrences; a scripted controller explores all accept/reject/adapt answers.",
'C06': "Reference: geometry itself: traces of global functions from both sides of a shared entity, polynomials to be reproduced, DOF sets of sub-regions from incidence.",
'C07': "Reference: plain copies of DOF vectors per step; everything that can be read is judged after every sequence.",
'C08': "Reference: dense sums of element contributions recorded in the assemble hook, DOF maps rebuilt from boundary conditions.",
'C09': "Reference: the written data themselves (round trip) and comparison through other formats.",
'C10': "Reference: an automaton of the damped Newton iteration; the residual function and linear solver are an environment answering from a finite alphabet, all scripts are explored. LCP part: all small integer problems, solution sets by enumeration of active sets.",
'C11': "Operations (solve, presolve, clear, change of the matrix in place, replacement, ...) form an alphabet; all sequences are run on one solver instance, each answer judged by the residual with the current matrix.",
'C12': "Reference: exact rational integrals of monomials.",
'C13': "Reference: polynomials identified on unisolvent lattices; derivatives obtained from those polynomials.",
'C14': "Reference: `mc/fe.py`, tangents by differences of the reference residual or the complex step of the energy; all entries of vectors and matrices are compared. This is bounded exhaustive enumeration over the term table, not over coefficient values: those are fixed generic ones, sufficient as the compared quantities are multilinear in them.",
'C15': "Reference: an independent Newton inversion of the map of every cell and `mc/fe.py` bases. The probe part is exploration of operation sequences (probe, change of options, mesh, sharing), everything read is judged after each sequence.",
'C16': "Reference: correctors and coefficients that return an expression tree of what they were given, so that a wrong or stale input is visible, and a recursive evaluation of the graph. The process pool and manager dictionaries are replaced (`mc/mpstub.py`) by threads with a baton and a chooser, everything passed by value; every access to a shared dictionary is a scheduling point. Effective coefficients: dense bilinear reference.",
'C17': "Reference: geometry - positions, volumes and boundaries of cells, polynomials reproduced, values of functions from both sides of a shared facet or edge, in all points of a lattice.",
'C18': "Strings are composed from parts with known meaning; expressions are read back and their residuals compared with combinations of residuals of single terms; the model of a material follows the documentation of `Material.time_update()`; integrals are compared with an isolated evaluation with fresh objects.",
'C19': "Polynomials of the coordinates along the interface are given to one side; terms with traces are compared with terms of a variable of the own side having the same polynomial there; matrix entries are matched by coordinates of DOFs.",
'C20': "Reference: geometry - volumes, Jacobians at all lattice points, the outline from facets contained in one cell, conformity from sorted facets and edges, positions computed from the documented formulas, a union-find model for merged nodes, dictionaries of cells and groups for transformed meshes.",
'C21': "Reference: the documented equations C u = b written down from coordinates of nodes and DOF names; the operator T and vector r have to satisfy C T = 0, C r = b and to leave exactly n - rank(C) independent DOFs; solutions of problems are compared with the null space method applied to the matrix and residual without the conditions.",
'C22': "MPI (queued messages with checked kinds and sizes) and PETSc (dense shared values, preallocation, ownership, INSERT/ADD) are replaced by stubs; as two tasks inserting different values of one entry is reported, the result does not depend on the order of tasks and one order of tasks represents all. References: sets of nodes of cells; the matrix and residual of the serial problem, renumbered.",
'C23': "The references are the Cox-de Boor recurrence, its derivatives and the rational formulas, evaluated for each patch independently of Bezier extraction. igakit is not installed: its elevation of degrees is replaced by exact interpolation in the elevated space, as the elevated patch has to be the same one. Solutions linear in coordinates are in every isoparametric space; with weights, where quadratures are not exact, the load is made by the same integrals of the known solution.",
'C24': "The references are the documented tables of the keywords, literals of the values written to strings, plain lists next to containers and the structures stored. All 512 combinations of the two syntaxes of 9 keywords are solved and compared with one solution, checked against its conditions.",
}
COST = dict(C01=25, C02=14, C03=1, C04=32, C05=59, C06=72, C07=24, C08=28,
            C09=46, C10=14, C11=8, C12=4, C13=12, C14=30, C15=45, C16=37, C17=45, C18=43, C19=20,
            C20=20, C21=40, C22=30, C23=30, C24=40)

def consts(pid):
    src = open(os.path.join(ROOT, 'mc/checks/%s.py' % pid.lower())).read()
    out = {}
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign):
            name = getattr(node.targets[0], 'id', '')
            if name in ('LEVEL', 'RULE', 'ASSUMPTIONS', 'BOUNDS'):
                out[name] = ast.literal_eval(node.value)
    return out

def main():
    props = [json.loads(line)
             for line in open(os.path.join(ROOT, 'properties.jsonl'))]
    out = [open(os.path.join(ROOT, 'mc/design_head.md')).read(),
           '## Properties\n']
    for prop in props:
        pid = prop['id']
        cc = consts(pid)
        flat = lambda ss: ' '.join(ss.split()).rstrip('.')
        out.append('### %s: %s\n' % (pid, prop['title']))
        out.append('* Enumerated: %s.' % flat(cc['RULE']))
        if pid in WHY: out.append('* ' + WHY[pid])
        for aa in cc['ASSUMPTIONS']:
            out.append('* Assumption: %s.' % flat(aa))
        out.append('* Quick%s: %s.' % (' (about %d s)' % COST[pid]
                                       if pid in COST else '',
                                       flat(cc['BOUNDS']['quick'])))
        out.append('* Thorough: %s.\n' % flat(cc['BOUNDS']['thorough']))
    out.append(open(os.path.join(ROOT, 'mc/design_tail.md')).read())
    out.append('## Planted changes\n')
    out.append('Each is verified by its demonstration and the stable tests;'
               ' unless noted in the caught column, the quick check of the'
               ' property reports it.\n')
    out.append('| id | property | breaks | needs |')
    out.append('|---|---|---|---|')
    sdir = os.path.join(ROOT, 'seeded')
    for sid in sorted(os.listdir(sdir)):
        mm = json.load(open(os.path.join(sdir, sid, 'meta.json')))
        out.append('| %s | %s | %s | %s |' % (
            sid, mm['property'], flat2(mm['what_it_breaks']),
            flat2(mm['needs'])))
    out.append('\n## Defects found and repaired\n')
    for line in open(os.path.join(ROOT, 'known_findings.txt')):
        if line.startswith('fixed:'):
            ww = line.split(None, 3)
            out.append('* %s, %s: %s' % (ww[1].split('=')[1], ww[2],
                                         ww[3].strip()))
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as fd:
        fd.write('\n'.join(out) + '\n')

def flat2(ss):
    return ' '.join(str(ss).split()).replace('|', '/')

main()
