"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/spec.py)."""
import json
import os

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note):
    P.append(dict(
        line=dict(
            id=id, title=title, statement=statement,
            quantifier=dict(over=over, text=qtext), why_tests_cant=why,
            anchors=dict(
                files=files,
                mechanism=[dict(name=a, where=b) for a, b in mech],
                observe_at=observe,
            ),
        ),
        check=dict(
            property=id,
            quick_cmd='./check.sh %s quick' % id,
            thorough_cmd='./check.sh %s thorough' % id,
            technique=technique, level='exploration', level_note=note,
        ),
    ))


prop(
    'C01', 'Massflows satisfy the mass balance everywhere',
    'In every accepted network of pipes, storages, connectors, valves and pumps, the massflow recorded for each '
    'part (and each of its ports or cells) at each step is the unique solution of the mass balances: what enters a '
    'part leaves it, both ends of a connection see the same flow, each pump delivers exactly the flow it is set to, and '
    'each three-way valve splits its total flow according to its opening. This holds for forward, reversed and zero '
    'flows, whichever way round parts are connected, and while pump flows and valve openings change during the run.',
    ['configurations', 'inputs'], 'all well-posed networks, pump flows (also zero and negative), valve openings, connection and creation orders',
    'the tests run five fixed networks whose flows are asserted nowhere; the quantifier is over topologies and flow signs',
    ['multisim/simenv.py', 'multisim/flownet.py', 'multisim/parts/*.py', 'multisim/precomp_funs.py'],
    [('flow net construction', 'multisim/simenv.py: _FlowNet/hydronic topology and massflow operations'),
     ('per part flow processing', 'multisim/precomp_funs.py: _process_flow_*')],
    'res_dm of every part after a run',
    'property-based testing: grammar-generated networks against a linear mass-balance model',
    'random networks up to about 40 parts; reference flows solved independently with least squares and compared to 1e-9 kg/s',
)
prop(
    'C02', 'Every pipe cell obeys its energy balance',
    'In any network, the temperature of each cell of a pipe (plain, heated, branched, with pump, with valve) changes '
    'per step by its energy balance: advection with the flow (upwind, either direction), conduction to the neighbouring cells and across '
    'ports through fluid and wall, loss to the ambient through convection, wall and insulation, heating power where '
    'heated, divided by the heat capacity of fluid and wall at the current temperature.',
    ['configurations', 'inputs'], 'all networks, geometries, materials, insulations, temperature profiles, flows and heating powers',
    'the tests compare a handful of runs with stored values or not at all; small wrong terms and unusual flow directions stay unseen',
    ['multisim/precomp_funs.py', 'multisim/parts/pipe.py', 'multisim/parts/heated_pipe.py', 'multisim/parts/pipe_branched.py', 'multisim/parts/pipe_with_valve.py', 'multisim/parts/pipe_with_pump.py'],
    [('differentials', 'multisim/precomp_funs.py: pipe1D_diff, pipe1D_branched_diff, heatedpipe1D_diff'),
     ('material values and UA', 'multisim/precomp_funs.py: cell_temp_props_ext, UA_*, pipe_alpha_i, cylinder_alpha_inf')],
    'res of the parts after a few small steps',
    'property-based testing: differential against an independent finite-volume reference model',
    'rates of change per cell compared to 3e-4 of the balance terms; geometry from the built-in pipe tables',
)
prop(
    'C03', 'Every storage cell obeys its energy balance',
    'The temperature of each cell of a thermal energy storage changes per step by its energy balance: advection of all '
    'charging and discharging ports at the cells they are attached to, conduction through fluid and shell, enhanced mixing where colder water '
    'lies above warmer water (and none where the layering is stable), loss through shell, lid and bottom, and conduction over each port.',
    ['configurations', 'inputs'], 'all storages (size, shell, insulation, cells, ports by index or volume), layerings and port flows in either direction',
    'the tests run one storage in one configuration; inversion, port placement and losses are not asserted',
    ['multisim/precomp_funs.py', 'multisim/parts/tes.py'],
    [('differential', 'multisim/precomp_funs.py: tes_diff'), ('mixing', 'multisim/precomp_funs.py: buoyancy_byNusselt'),
     ('port placement', 'multisim/parts/tes.py: new_ports')],
    'res of the storage after a few small steps',
    'property-based testing: differential against an independent finite-volume reference model',
    'rates of change per cell compared to 3e-4 of the balance terms',
)
prop(
    'C04', 'Pumps, valves and connectors pass on and mix heat correctly',
    'A pump passes the temperature arriving at one side on to the other side; a splitting valve or connector hands the arriving '
    'temperature to all its outflows; where flows merge, the outflow has the flow- and heat-capacity-weighted mixture of the '
    'inflows, so that no energy appears or vanishes. Ports without flow see means of the adjacent temperatures.',
    ['configurations', 'inputs'], 'all junction positions, port assignments, flow directions and ratios including closed ports and zero flow',
    'the tests never look at junction temperatures; there are dozens of sign patterns per connector',
    ['multisim/precomp_funs.py', 'multisim/parts/mixingvalve.py', 'multisim/parts/connector_3w.py', 'multisim/parts/pump.py'],
    [('junction solvers', 'multisim/precomp_funs.py: solve_mix, solve_split, solve_connector_3w, solve_pump')],
    'res of the junction parts and of the parts connected to them',
    'property-based testing: reference model of junctions plus enthalpy balance invariant',
    'recorded junction temperatures compared with those implied by the neighbouring states',
)

exec(open(os.path.join(HOME, 'tools', 'spec2.py')).read()) if os.path.exists(os.path.join(HOME, 'tools', 'spec2.py')) else None

NA = []


def main():
    have = [p for p in P if os.path.exists(os.path.join(HOME, 'checks', p['line']['id'].lower() + '.py'))]
    with open(os.path.join(HOME, 'properties.jsonl'), 'w') as f:
        for p in have:
            assert len(p['line']['title']) <= 80, p['line']['title']
            f.write(json.dumps(p['line']) + '\n')
    man = dict(
        version=1, setup_cmd='chmod +x check.sh && ./check.sh --selftest',
        checks=[p['check'] for p in have], not_applicable=NA,
        notes='No hooks in /repo. fix: commits are listed in known_findings.txt. Replays: ./check.sh --replay <file>.',
    )
    with open(os.path.join(HOME, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
