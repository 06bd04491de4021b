#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the list of properties lives
here, in one place)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, technique,
         note, observe=None, claimed=True):
    P.append(dict(
        rec=dict(id=id, title=title, statement=statement,
                 quantifier=dict(over=over, text=quant),
                 why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[
                     dict(name=n, where=w) for n, w in mech],
                     **({'observe_at': observe} if observe else {}))),
        technique=technique, note=note, claimed=claimed))


T = 'wake_t/'
prop('P01', 'Every bunch crosses every instant of a field element exactly once',
     'Tracking through any field-based element advances every bunch from the '
     'entrance to the exit in contiguous, non-overlapping pushes whose time '
     'steps add up to the transit time, whatever the time steps, number of '
     'outputs, other bunches and fields. No push is longer than the requested '
     '(or, if adaptive, the currently optimal) time step or goes past the '
     'exit, and if no extra output pushes are enabled all pushes but the last '
     'have exactly the requested length.',
     ['schedules', 'configurations'],
     'all combinations of bunches, fixed/adaptive time steps, fields, number '
     'of outputs and output-push modes',
     'tests fix one time step that divides the stage; the clipping logic '
     'depends on the relation between all the periods',
     [T + 'tracking/tracker.py', T + 'beamline_elements/field_element.py'],
     [('event loop', T + 'tracking/tracker.py:Tracker.do_tracking'),
      ('last-push clipping', T + 'tracking/tracker.py:Tracker.evolve_bunch')],
     'online push recorder + offline trace checker over random schedules',
     'Recording bunch subclasses log every push of the real tracker; held on '
     'the schedules generated, not proved for all.')
prop('P02', 'Fields and outputs fire at their own regular times, in time order',
     'During tracking, every numerical field is initialised once before the '
     'first push and then recomputed exactly at the multiples of its own '
     'update period (adjusted to end at the exit, never enlarged, if even '
     'updates are requested), and outputs are produced exactly at equally '
     'spaced times including entrance and exit. Pushes, field updates and '
     'outputs happen in time order (bunch, then field, then output when they '
     'coincide), so that a push never uses a field that is ahead of it or '
     'overdue, and field updates and outputs always see all bunches at their '
     'current position.',
     ['schedules', 'configurations'],
     'all combinations of bunch steps, field periods and output counts, '
     'including coinciding ones',
     'the tests use one field and compare one number; ordering only shows '
     'when periods interleave',
     [T + 'tracking/tracker.py', T + 'fields/numerical_field.py'],
     [('event loop', T + 'tracking/tracker.py:Tracker.do_tracking'),
      ('update period', T + 'fields/numerical_field.py:NumericalField')],
     'event-log recorder (bunch, field, diagnostics) + offline ordering checker',
     'Recording NumericalField, bunch and diagnostics objects driven by the '
     'real tracker; the recorded history is judged against the time-order '
     'specification.')
prop('P03', 'Snapshots are complete, correctly placed and independent',
     'Tracking through an element or beamline returns one snapshot per bunch '
     'at each of the requested, equally spaced positions (field elements also '
     'at the entrance; transfer-map elements only if asked), each equal to '
     'the bunch at that position, and leaves the tracked bunch itself at its '
     'state at the exit. A snapshot or copy keeps everything that '
     'identifies the bunch (weights, species, name, tags, time of flight, '
     'injection position, reference frame, propagation distance) and is '
     'never affected by later changes to the bunch or to other snapshots.',
     ['inputs', 'configurations', 'histories'],
     'all elements, output counts, bunches and later modifications',
     'tests look at the last snapshot of one configuration',
     [T + 'tracking/tracker.py', T + 'beamline_elements/tm_elements.py',
      T + 'beamline_elements/beamline.py', T + 'particles/particle_bunch.py'],
     [('copy', T + 'particles/particle_bunch.py:ParticleBunch.copy'),
      ('transfer-map outputs',
       T + 'beamline_elements/tm_elements.py:TMElement._determine_steps, '
       '_create_new_bunch, _update_input_bunch'),
      ('field outputs', T + 'tracking/tracker.py:generate_diagnostics')],
     'snapshot monitor (independent state, aliasing and mutation probes)',
     'Every returned snapshot of the generated runs is compared with an '
     'independent re-tracking and probed for shared memory.')
prop('P04', 'Macroparticles are never created, lost, reordered or re-weighted',
     'Through every element, with every wakefield model and with CSR, a bunch '
     'keeps its number of macroparticles, their order, weights, tags, species '
     'and total charge, and its propagation distance grows by exactly the '
     'element length. Permuting the macroparticles of the input only permutes '
     'the output, and without collective effects the motion of a '
     'macroparticle does not depend on which others are tracked with it.',
     ['inputs', 'configurations'],
     'all bunches, elements and orderings of the macroparticles',
     'tests track one ordering and check averages',
     [T + 'particles/particle_bunch.py', T + 'tracking/tracker.py',
      T + 'beamline_elements/tm_elements.py',
      T + 'physics_models/collective_effects/csr.py'],
     [('push', T + 'particles/particle_bunch.py:ParticleBunch.evolve'),
      ('transfer-map tracking',
       T + 'beamline_elements/tm_elements.py:TMElement.track'),
      ('CSR step count',
       T + 'beamline_elements/tm_elements.py:TMElement._determine_steps')],
     'conservation monitor + metamorphic (permutation/subset) re-execution',
     'Conservation and equivariance observed on random bunches through every '
     'element type.')
# -- more properties are appended below --
exec(open(os.path.join(V, 'tools', 'more_props.py')).read()
     if os.path.exists(os.path.join(V, 'tools', 'more_props.py')) else '')

if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p['rec']) + '\n')
    checks, na = [], []
    for p in P:
        i = p['rec']['id']
        if p['claimed'] and os.path.exists(
                os.path.join(V, 'checks', i.lower() + '.py')):
            checks.append(dict(
                property=i,
                quick_cmd=f'/opt/venv/bin/python run_check.py {i} '
                          '--tier quick',
                thorough_cmd=f'/opt/venv/bin/python run_check.py {i} '
                             '--tier thorough',
                technique=p['technique'], level='exploration',
                level_note=p['note']))
        else:
            na.append(dict(property=i, reason='no check built yet'))
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(
            version=1,
            setup_cmd='/opt/venv/bin/python tools/setup_check.py',
            checks=checks, not_applicable=na), f, indent=1)
        f.write('\n')
