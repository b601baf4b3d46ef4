"""Field types of PyNite's objects, used to resolve method receivers and to tell numbers from objects.
Confirmed by reading the constructors.  An attribute that is missing here is simply untyped."""

NUM = 'num'
_dofs = ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ')

TY = {
    'FEModel3D': dict(nodes='dict:Node3D', aux_nodes='dict:Node3D', materials='dict:Material',
                      sections='dict:Section', springs='dict:Spring3D', members='dict:PhysMember',
                      quads='dict:Quad3D', plates='dict:Plate3D', meshes='dict:Mesh',
                      load_combos='dict:LoadCombo', _D='dict:mat:N,1', solution='str'),
    'Node3D': dict(name='str', ID=NUM, X=NUM, Y=NUM, Z=NUM, NodeLoads='list:NodeLoad', contour='list:num'),
    'Material': dict(name='str', E=NUM, G=NUM, nu=NUM, rho=NUM, fy=NUM),
    'Section': dict(name='str', A=NUM, Iy=NUM, Iz=NUM, J=NUM, fy=NUM, Zy=NUM, Zz=NUM, material_name='str', model='FEModel3D'),
    'LoadCombo': dict(name='str', factors='dict:num', combo_tags='list:str'),
    'Spring3D': dict(name='str', ID=NUM, i_node='Node3D', j_node='Node3D', ks=NUM, load_combos='dict:LoadCombo',
                     tension_only='bool', comp_only='bool', active='dict:bool'),
    'Member3D': dict(name='str', ID=NUM, i_node='Node3D', j_node='Node3D', material_name='str', E=NUM, G=NUM,
                     A=NUM, Iy=NUM, Iz=NUM, J=NUM, _fxi=NUM, _myi=NUM, _mzi=NUM, _fxj=NUM, _myj=NUM, _mzj=NUM,
                     i_reversal='bool', j_reversal='bool', auxNode='Node3D', PtLoads='list:PtLoad',
                     DistLoads='list:DistLoad', SegmentsZ='list:BeamSegZ', SegmentsY='list:BeamSegY',
                     SegmentsX='list:BeamSegZ', Releases='list:bool', tension_only='bool', comp_only='bool',
                     active='dict:bool', _solved_combo='LoadCombo', model='FEModel3D', section='Section'),
    'PhysMember': dict(sub_members='dict:Member3D'),
    'Plate3D': dict(name='str', ID=NUM, type='str', i_node='Node3D', j_node='Node3D', m_node='Node3D', n_node='Node3D',
                    t=NUM, E=NUM, nu=NUM, kx_mod=NUM, ky_mod=NUM, pressures='list:Pressure', model='FEModel3D'),
    'BeamSegZ': dict((k, NUM) for k in ('x1', 'x2', 'w1', 'w2', 'p1', 'p2', 'V1', 'M1', 'P1', 'T1', 'theta1', 'delta1', 'delta_x1', 'EI', 'EA')),
    'Mesh': dict(thickness=NUM, material_name='str', model='FEModel3D', kx_mod=NUM, ky_mod=NUM, start_node='str',
                 start_element='str', nodes='dict:Node3D', elements='dict:Quad3D', element_type='str', _is_generated='bool',
                 mesh_size=NUM, width=NUM, height=NUM, plane='str', x_control='list:num', y_control='list:num',
                 openings='dict:RectOpening', radius=NUM, outer_radius=NUM, inner_radius=NUM, axis='str', h=NUM,
                 origin='list:num', num_elements=NUM, r3=NUM, n=NUM, Xo=NUM, Yo=NUM, Zo=NUM),
    'RectOpening': dict(x_left=NUM, y_bott=NUM, width=NUM, height=NUM),
}
for _d in _dofs:
    TY['Node3D'][_d] = 'dict:num'
    TY['Node3D']['support_' + _d] = 'bool'
    TY['Node3D']['spring_' + _d] = 'Spr'
    TY['Node3D']['Enforced' + _d] = NUM + '?'
for _d in ('FX', 'FY', 'FZ', 'MX', 'MY', 'MZ'):
    TY['Node3D']['Rxn' + _d] = 'dict:num'
TY['Quad3D'] = dict(TY['Plate3D'], x1=NUM, x2=NUM, x3=NUM, x4=NUM, y1=NUM, y2=NUM, y3=NUM, y4=NUM)

# records stored as tuples/lists
REC = {
    'NodeLoad': ('str', NUM, 'str'),
    'PtLoad': ('str', NUM, NUM, 'str'),
    'DistLoad': ('str', NUM, NUM, NUM, NUM, 'str'),
    'Pressure': (NUM, 'str'),
    'Spr': (NUM + '?', 'str', 'bool'),
}
NAMED = {'Node3D', 'Material', 'Section', 'LoadCombo', 'Spring3D', 'Member3D', 'PhysMember', 'Quad3D', 'Plate3D'}

# container attributes that may also be None (owner type, attribute)
NULLABLE = {('LoadCombo', 'combo_tags')}
