#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('TLA+ geometry specification; TLC judges recorded answers of the real code', 'TLC checks the geometry model on an integer lattice; every answer of Cell/World location on lattice and random points (half on or next to surfaces) is judged against the specification in 50-digit arithmetic'),
 'C02': ('TLA+ geometry specification; TLC judges recorded answers of the real code', 'as C01 for ray distances: exact on the lattice, within rounding error elsewhere'),
 'C03': ('TLA+ walk specification model checked with TLC; TLC trace validation of complete executions', 'the rules that judge executions are the next-state relation of the checked model; every event of every particle of random multigroup and continuous-energy problems is judged'),
 'C04': ('TLA+ walk specification model checked with TLC; TLC trace validation of complete executions', 'as C03, with long walks, thin layers and coordinates over seven orders of magnitude; multigroup and continuous-energy problems'),
 'C05': ('TLA+ flight law; TLC validates executions and counts of first flights', 'every flight of random walks must be the exponential quantile of one of the random numbers it consumed and no random number may be used twice; distances of millions of first flights compared with the integrated law'),
 'C06': ('TLA+ data specification; TLC judges outcome counts of simulated collisions', 'exact probabilities computed by the specification, outcome counts of about a million collisions per run compared at about 7 standard deviations, impossible outcomes rejected outright; multigroup and continuous-energy data'),
 'C07': ('TLA+ walk specification model checked with TLC; TLC trace validation of complete executions', 'bank conservation is an invariant of the model; every secondary of real executions is followed, yields and spectra compared with exact probabilities; multigroup and continuous-energy data'),
 'C08': ('TLA+ specification of delta tracking; TLC judges walks, majorants and counts of tentative and accepted collisions', 'counts by distance of about twenty million flights through temperature gradients compared with the law integrated by the specification; majorants against totals at random places; every event of complete walks'),
 'C09': ('TLA+ scheduler specification (all interleavings) and TLC validation of recorded runs', 'all interleavings of up to 4 workers; real runs with up to 32 threads'),
 'C10': ('TLA+ tally specification; behaviours generated by TLC replayed into the real classes; TLC trace validation', 'operation sequences generated by TLC are executed by the real EstimatorSet and results compared; printed totals of executions are recomputed from their events'),
 'C11': ('TLA+ binning specification; TLC judges recorded answers of the real code', 'values at, next to and between boundaries of random binnings with up to a million parts, and positions of combinations in the results'),
 'C12': ('TLC trace validation of complete executions', 'printed results recomputed from the recorded crossings of every particle, multigroup and continuous-energy problems, surface and delta tracking'),
 'C13': ('TLC trace validation of complete executions and of the program\'s output file', 'printed means and standard errors recomputed by the specification from the recorded events, and compared with the output file of the program itself'),
 'C14': ('TLC trace validation of complete executions', 'indirect effects of every flight and printed sensitivities recomputed by the specification'),
 'C15': ('TLC compares histories recorded in different runs of the same problem', 'bitwise equality of all histories over threads, repetitions, processes, batch sizes, objects alive at the same time and contents of memory'),
 'C16': ('TLA+ specification of usable input; TLC-enumerated input mutations run through the real program', 'verdict of the program compared with the verdict of the specification'),
 'C17': ('TLA+ table specification; TLC judges recorded answers of the real code', 'random tables of one to four axes: entries, interpolation, values outside, cumulative distributions'),
 'C18': ('TLA+ specification of continuous-energy data; TLC judges recorded answers of the real code', 'random data; every evaluation recomputed in 50-digit arithmetic'),
 'C19': ('TLA+ collision specification with the exact joint distribution of outgoing energy and cosine; TLC judges outcome counts', 'reaction frequencies and histograms over energy and cosine of millions of collisions compared with probabilities derived from the free-gas law; impossible outcomes rejected outright'),
 'C20': ('TLA+ specification of the thermal scattering tables; TLC judges recorded answers of the real code', 'random tables, energies and temperatures'),
 'C21': ('TLA+ specification of thermal sampling with exact joint distributions; TLC judges outcome counts', 'histograms over energy and cosine of millions of bound-atom scatterings compared with probabilities derived from the tables; impossible outcomes rejected outright'),
 'C22': ('TLA+ source specification; TLC judges every source particle and their distribution', 'each source particle of random sources, histograms of directions'),
 'C23': ('TLA+ specification of directions; TLC judges recorded directions of the real code', 'random, axis-parallel and nearly parallel directions'),
 'C24': ('TLA+ temperature and tracking specification; TLC judges recorded answers of the real code', 'random fields, cells and tracking requests'),
 'C25': ('TLA+ data specification; TLC judges recorded answers of the real code', 'random mixtures of random multigroup nuclides'),
}
NA = {'C26': 'the criticality driver is an unimplemented stub (KEigenvalue::Solve returns nothing): there is no behaviour to specify or to bind a specification to'}


def main():
    props = [json.loads(l) for l in open(V + '/properties.jsonl')]
    checks, na = [], []
    for p in props:
        i = p['id']
        if os.path.exists('%s/checks/%s.py' % (V, i.lower())) and i in T:
            lv = [l for l in open('%s/checks/%s.py' % (V, i.lower())) if l.startswith('LEVEL')][0].split("'")[1]
            checks.append(dict(property=i, quick_cmd='python3 run.py %s quick' % i, thorough_cmd='python3 run.py %s thorough' % i,
                               technique=T[i][0], level=lv, level_note=T[i][1]))
        else:
            na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
    src = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], stdout=subprocess.PIPE).stdout.decode().splitlines()
    m = dict(version=1, setup_cmd='python3 -c "import sys; assert sys.version_info >= (3, 8)" && java -version 2>/dev/null && g++ --version >/dev/null',
             hooks=dict(guard='MINIMC_VERIF', enable='the checks compile /repo/src themselves with -DMINIMC_VERIF=1 (observation) or -DMINIMC_VERIF=2 (observation and external random numbers)',
                        source_commits=[l.split()[0] for l in src if 'MINIMC_VERIF' in l]),
             checks=checks, not_applicable=na,
             notes='Every check builds the code it needs from the working tree of /repo in a temporary directory.')
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
    open(V + '/MANIFEST.json', 'a').write('\n')


main()
