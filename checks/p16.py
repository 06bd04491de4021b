"""P16: the laser envelope solver advances the pulse by the envelope equation."""
import numpy as np
import scipy.constants as ct
import lasref
from common import W, imp

PROPERTY = 'P16'
RULE = ('Random grids, pulses (also off focus, chirped, with random complex '
        'noise, cut by the box), plasma susceptibilities, densities, time '
        'steps, substeps and phase treatment; sequences of evolve calls '
        'including changes of the time step. Every recorded envelope is '
        'compared with an independent dense solution of the envelope '
        'equation; scaling/phase/linearity relations, energy conservation in '
        'vacuum, group velocity and diffraction are checked on the same '
        'executions. Non-trivial: the pulse changed by more than 1e-6; '
        'distinct by configuration.')
ASSUMPTIONS = ['Envelope equation and its discretisation as published by '
               'Benedetti et al. (2018), cell-centred in r.']
MIN_EVENTS = {'monitor:envelope': 40, 'monitor:phase_invariance': 10,
              'monitor:vacuum_energy': 10, 'monitor:group_delay': 3,
              'monitor:diffraction': 3}
BUDGET = {'quick': 150., 'thorough': 1500.}


def pulse_cls():
    LP = imp('wake_t.physics_models.laser.laser_pulse', 'LaserPulse')

    class Given(LP):
        """A pulse with a prescribed envelope."""

        def __init__(self, a, l_0, pol='linear'):
            super().__init__(l_0, pol)
            self.given = a

        def _envelope_function(self, xi, r, z_pos):
            return self.given(xi, r)
    return Given


def w_step(ctx):
    G = pulse_cls()
    for i, rng in ctx.cases(ctx.n(150, 1500)):
        nz, nr = int(rng.integers(8, 60)), int(rng.integers(6, 50))
        l_0 = float(rng.choice([.4e-6, .8e-6, 10e-6]))
        n_p = float(10**rng.uniform(21, 25))
        w0 = float(rng.uniform(5e-6, 40e-6))
        s_z = float(rng.uniform(2e-6, 15e-6))
        rmax = float(w0 * rng.uniform(1.2, 4))
        z0, z1 = -s_z * rng.uniform(1.5, 5), s_z * rng.uniform(1.5, 5)
        if rng.random() < .5:
            z1 = 9 * s_z
        chirp, curv = rng.uniform(-2, 2, 2)
        a0 = float(10**rng.uniform(-2, 1))
        noise = rng.random() < .3
        hole = rng.random() < .2
        use_phase = bool(rng.random() < .7)
        nz_ = rng.standard_normal((nz, nr)) + 1j * rng.standard_normal(
            (nz, nr))

        def env(Z, R):
            a = a0 * np.exp(-R**2 / w0**2 * (1 + 1j * curv)
                            - Z**2 / 2 / s_z**2 + 1j * chirp * (Z / s_z)**2)
            if noise:
                a = a * (1 + .1 * nz_)
            if hole:
                a[nz // 3:nz // 2] = 0.
            return a
        dt0 = float(10**rng.uniform(-6, -3.5) / ct.c)
        nt = int(rng.choice([1, 1, 2, 3]))
        with ctx.case(nz=nz, nr=nr, l_0=l_0, n_p=n_p, w0=w0, s_z=s_z,
                      rmax=rmax, z0=z0, z1=z1, a0=a0, dt=dt0, nt=nt,
                      noise=noise, hole=hole, use_phase=use_phase):
            ph = np.exp(1j * rng.uniform(0, 6.28)) * rng.uniform(.1, 5)
            P = G(env, l_0)
            Q = G(lambda Z, R: ph * env(Z, R), l_0)
            Z, R = np.meshgrid(np.linspace(z0, z1, nz),
                               (np.arange(nr) + .5) * rmax / nr,
                               indexing='ij')
            ref = lasref.Ref(env(Z, R), l_0, rmax, z0, z1)
            dt = dt0
            amp = np.max(np.abs(ref.a))
            front = np.max(np.abs(ref.a[nz - 2:nz]))
            for q in (P, Q):
                q.set_envelope_solver_params(z0, z1, rmax, nz, nr, dt, nt,
                                             None, None, use_phase)
                q.initialize_envelope()
            ctx.close('initial', np.max(np.abs(
                P.get_envelope() - ref.a[:nz])), 1e-12 * amp)
            moved = 0.
            chi0 = rng.uniform(0, 1.5) * (1 + .5 * np.sin(
                Z / s_z * 3 + R / w0)) * (rng.random() < .8)
            unstable = False
            for s in range(int(rng.integers(1, 5))):
                if rng.random() < .25:
                    dt = dt * float(rng.uniform(.5, 1.5))
                    nt = int(rng.choice([1, 2]))
                    for q in (P, Q):
                        q.set_envelope_solver_params(
                            z0, z1, rmax, nz, nr, dt, nt, None, None,
                            use_phase)
                        q.initialize_envelope()
                    ref.steps = 0
                    ctx.event('dt_changed')
                chi = chi0 * (1 + .2 * s)
                npl = n_p * (1 + .1 * s)
                if rng.random() < .1:
                    # density change only
                    npl *= 1.7
                prev = P.get_envelope().copy()
                P.evolve(chi.copy(), npl)
                Q.evolve(chi.copy(), npl)
                want = ref.evolve(chi, npl, dt, nt, use_phase)
                got = P.get_envelope()
                big = np.max(np.abs(want))
                if not np.isfinite(big) or big > 1e6 * amp:
                    unstable = True
                    break
                ctx.close('envelope', np.max(np.abs(got - want)),
                          1e-7 * max(big, amp), step=s)
                # (the phase derivative is undefined where the field is zero,
                # as ahead of a box that cuts the front of the pulse)
                ok = (front < 1e-9 * amp and not hole and l_0 < 5e-6
                      and abs(chirp) < 1)
                if ok or not use_phase:
                    ctx.close('phase_invariance', np.max(np.abs(
                        Q.get_envelope() - ph * got)),
                        1e-4 * max(big, amp) * abs(ph))
                moved = max(moved, np.max(np.abs(got - prev)) / amp)
                ctx.event('steps')
            if unstable:
                ctx.event('unstable')
            if moved > 1e-6:
                ctx.nontrivial([nz, nr, n_p, dt0])


def w_physics(ctx):
    """Vacuum diffraction, energy and group velocity of the real solver."""
    GP = imp('wake_t', 'GaussianPulse')
    for i, rng in ctx.cases(ctx.n(24, 200)):
        l_0 = float(rng.choice([.8e-6, 1.6e-6]))
        w0 = float(rng.uniform(15e-6, 30e-6))
        tau = float(rng.uniform(25e-15, 60e-15))
        zr = np.pi * w0**2 / l_0
        kind = ('vacuum', 'plasma')[i % 2]
        z_foc = float(rng.uniform(-.7, .7) * zr) if kind == 'vacuum' else 0.
        use_phase = bool(i % 4 < 2)
        nt = int(rng.choice([1, 2]))
        nz, nr = 80, 140
        L = ct.c * tau
        rmax = 6 * w0
        with ctx.case(kind=kind, l_0=l_0, w0=w0, tau=tau, z_foc=z_foc,
                      use_phase=use_phase, nt=nt):
            P = GP(xi_c=0., a_0=1., w_0=w0, tau=tau, z_foc=z_foc, l_0=l_0)
            n_p = 1e18 if kind == 'vacuum' else float(
                10**rng.uniform(23.7, 24.7))
            D = .6 * zr if kind == 'vacuum' else .25 * zr
            N = 60
            dt = D / N / ct.c
            z0, z1 = -3 * L, 2 * L
            P.set_envelope_solver_params(z0, z1, rmax, nz, nr, dt, nt, None,
                                         None, use_phase)
            P.initialize_envelope()
            r = (np.arange(nr) + .5) * rmax / nr
            z = np.linspace(z0, z1, nz)
            a = P.get_envelope().copy()
            E = np.sum(np.abs(a)**2 * r[None, :])
            zc = np.sum(np.abs(a)**2 * r * z[:, None]) / E
            chi = np.zeros((nz, nr)) if kind == 'vacuum' else np.ones(
                (nz, nr))
            for _ in range(N):
                P.evolve(chi, n_p)
            b = P.get_envelope()
            E2 = np.sum(np.abs(b)**2 * r[None, :])
            ctx.close('vacuum_energy', abs(E2 / E - 1), 2e-2)
            # spot size: <r^2> = w^2 / 2 for |a|^2
            j = np.argmax(np.abs(b[:, 0]))
            w = np.sqrt(2 * np.sum(np.abs(b[j])**2 * r**3)
                        / np.sum(np.abs(b[j])**2 * r))
            want = w0 * np.sqrt(1 + ((D - z_foc) / zr)**2)
            ctx.close('diffraction', abs(w / want - 1), 2e-2, w=w, want=want)
            zc2 = np.sum(np.abs(b)**2 * r * z[:, None]) / E2
            wp2 = n_p * ct.e**2 / (ct.m_e * ct.epsilon_0)
            w02 = (2 * np.pi * ct.c / l_0)**2
            beta = np.sqrt(1 - wp2 / w02)
            # diffraction slows the pulse, too: k_perp^2 = 2/w0^2 (on average)
            slow = (1 - beta) + (1 / (2 * (np.pi * w0 / l_0)**2)) / 2
            if kind == 'plasma':
                ctx.close('group_velocity', abs(
                    P.get_group_velocity(n_p) - beta), .02 * (1 - beta))
                ctx.close('group_delay', abs((zc - zc2) - slow * D),
                          .08 * slow * D + .02 * L / 50, got=zc - zc2,
                          want=slow * D)
                # phase velocity: a ~ exp(-i kp^2/(2 k0) z) (Helmholtz sign)
            ctx.nontrivial([kind, w0, tau])


SHARDS = {'step': w_step, 'step2': w_step, 'physics': w_physics}
