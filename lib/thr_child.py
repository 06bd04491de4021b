"""Child of P11: tracks seeded cases and prints a digest of every result."""
import json
import sys
import os

sys.path.insert(0, os.environ['VERIF_REPO_PATH'])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np                                            # noqa: E402
import scipy.constants as ct                                  # noqa: E402
from common import W, make_bunch, bunch_arrays, state         # noqa: E402
import wf                                                     # noqa: E402


def probe(seen):
    """A field without force that sees with how many threads it is used."""
    import numba
    from wake_t.fields.base import Field

    class Probe(Field):
        def _gather(self, x, y, z, t, ex, ey, ez, bx, by, bz):
            seen.add(numba.get_num_threads())
    return Probe()


def main(seed, models, n_cases, out):
    import numba
    res = []
    for j in range(n_cases):
        for model in models:
            rng = np.random.default_rng([seed, j, len(model)])
            n_p, sd, k = wf.grid(rng, 'quasistatic_2d'
                                 if model == 'quasistatic_2d'
                                 else 'cold_fluid_1d')
            pusher = ('boris', 'rk4')[int(rng.integers(2))]
            L = float(rng.uniform(.5, 2) * 1e-3)
            bs = [wf.beam(rng, n_p, k, k['xi_min'] * .5 + .5 * k['xi_max'],
                          k['xi_min'] * .2 + .8 * k['xi_max'], .2,
                          n=int(rng.integers(500, 20000))),
                  wf.beam(rng, n_p, k, k['xi_min'] * .9 + .1 * k['xi_max'],
                          k['xi_min'] * .6 + .4 * k['xi_max'], .05,
                          n=int(rng.integers(1, 5000)))]
            b = wf.bunches(bs)
            before = numba.get_num_threads()
            seen = set()
            spy = probe(seen)
            if model == 'focusing_blowout':
                st = W.PlasmaStage(L, n_p, model, n_out=1,
                                   bunch_pusher=pusher,
                                   external_fields=[spy])
            else:
                las = wf.laser(rng, n_p, k) if rng.random() < .5 else None
                st = wf.stage(model, n_p, k, las, length=L, dz_fields=L / 2.5,
                              dt_bunch=L / ct.c / 7, bunch_pusher=pusher,
                              external_fields=[spy])
            st.track(b, show_progress_bar=False)
            r = dict(model=model, pusher=pusher, threads_before=before,
                     threads_after=numba.get_num_threads(),
                     n=[len(x.x) for x in b], during=sorted(seen))
            arr = [state(x) for x in b]
            f = st.fields[0]
            if hasattr(f, 'e_z'):
                arr += [f.e_z, f.e_r, f.b_t, f.rho, f.chi]
            np.savez(f'{out}_{len(res)}.npz', *arr)
            res.append(r)
    print('RESULT ' + json.dumps(res))


if __name__ == '__main__':
    main(int(sys.argv[1]), sys.argv[2].split(','), int(sys.argv[3]),
         sys.argv[4])
