"""What each check runs: the specification module that plans (and is model
checked while planning), the driver's subsystem, the module that accepts or
rejects traces, and rounds x scenarios per tier."""
def mesh(q, t, rounds=10):
    return [dict(gen='MeshScen', sub='mesh', trace='MeshTrace', rounds={'quick': (1, q), 'thorough': (rounds, t)})]
PLANS = {
    'M01': mesh(160, 400), 'M02': mesh(180, 300), 'M03': mesh(170, 300), 'M04': mesh(200, 300), 'M05': mesh(120, 200),
    'M06': mesh(180, 300), 'K01': mesh(180, 300), 'K02': mesh(180, 300), 'K03': mesh(180, 300), 'K04': mesh(120, 200),
    'T01': mesh(260, 300), 'T02': mesh(260, 300), 'T03': mesh(180, 300),
}
def design(name):
    return [dict(module=name), dict(module=name, cfg=name + 'Big', tier='thorough')]
def sets(q, t, rounds=10):
    return [dict(gen='SetScen', sub='sets', trace='SetTrace', rounds={'quick': (1, q), 'thorough': (rounds, t)})]
def plain(gen, sub, trace, q, t, rounds=10, **kw):
    return [dict(dict(gen=gen, sub=sub, trace=trace, rounds={'quick': (1, q), 'thorough': (rounds, t)}), **kw)]
PLANS.update({'S01': sets(500, 500), 'S02': sets(400, 500), 'S03': sets(800, 800), 'T04': sets(600, 500)})
PLANS['S02'][0]['models'] = design('SetDesign')
PLANS['T03'][0]['models'] = design('TileDesign')
PLANS['R01'] = plain('RegionScen', 'region', 'RegionTrace', 450, 600)
PLANS['G01'] = plain('ShapeScen', 'geom', 'ShapeTrace', 600, 900)
for _v, _q, _t in (('V01', 450, 600), ('V02', 400, 600), ('V03', 500, 800), ('V04', 450, 600), ('V05', 400, 600), ('V06', 350, 500)):
    PLANS[_v] = plain('StateScen', 'state', 'StateTrace', _q, _t)
for _v in ('V03', 'V04'):
    PLANS[_v][0]['models'] = design('MaterialDesign')
PLANS['P01'] = plain('PartScen', 'part', 'PartTrace', 700, 1200, rounds=4, models=design('BlockDesign'))

PLANS['F01'] = plain('FactoryScen', 'factory', 'FactoryTrace', 90, 300, models=[dict(module='FactoryDesign')])
PLANS['F02'] = plain('FactoryScen', 'factory', 'FactoryTrace', 250, 500, models=[dict(module='FactoryDesign')])

PLANS['E01'] = plain('ErrorScen', 'error', 'ErrorTrace', 500, 1500, models=[dict(module='ErrorDesign')])
TECH = 'TLA+ specification model-checked with TLC; TLC generates the scenarios and validates the traces recorded from the real code'
_MESH = ('Trace validation of the real code on every planned scenario, exact up to rounding of reals to thousandths; complete only for the meshes, '
         'ownership assignments and motions TLC drew within the bounds of MeshScen (a few cells per axis in 1D, 2D and 3D, arbitrary polygons/polyhedra, ghosts). '
         'Trusts TLC, the driver, and the harness subclass that supplies a mesh to Jali::Mesh.')
NOTES = {k: _MESH for k in ('M01', 'M02', 'M03', 'M04', 'M05', 'M06', 'K01', 'K02', 'K03', 'K04', 'T01', 'T02', 'T03', 'T04', 'S01', 'S02', 'S03', 'R01', 'G01', 'P01', 'V01', 'V02', 'V03', 'V04', 'V05', 'V06', 'F01', 'F02', 'E01')}
