"""Configurations of the code under test used by the simulation."""
def both(base, name):
    return {name: base.split() + ['--enable-mpi'], name + '.s': base.split()}
CONFIGS = {}
for name, o in {
    'hyd':   '--with-problem=simprob --with-gas=hydro --with-nscalars=2 --with-flux=hllc --with-order=3',
    'mhd':   '--with-problem=simprob --with-gas=mhd --with-flux=hlld --with-nscalars=1',
    'hydvl': '--with-problem=simprob --with-gas=hydro --with-eos=isothermal --with-integrator=vl --with-order=2p --with-flux=roe --enable-fofc',
    'mhdvl': '--with-problem=simprob --with-gas=mhd --with-integrator=vl --with-order=3p --with-flux=roe --with-nscalars=1 --enable-fofc',
    'hydhc': 'simprob --with-gas=hydro --with-flux=roe --with-order=2 --enable-h-correction --with-nscalars=1',
    'shr':   'simprob --with-gas=mhd --with-flux=hlld --enable-shearing-box --with-nscalars=1',
    'shrf':  'simprob --with-gas=mhd --with-eos=isothermal --with-flux=hlld --enable-shearing-box --enable-fargo',
    'shrh':  'simprob --with-gas=hydro --with-flux=roe --enable-shearing-box --with-nscalars=1',
    'shrhf': 'simprob --with-gas=hydro --with-flux=hllc --enable-shearing-box --enable-fargo --with-order=3p --with-nscalars=1',
    'shrv':  'simprob --with-gas=mhd --enable-shearing-box --with-integrator=vl --with-order=2p --with-flux=hlld',
    'grav':  'simprob --with-gas=hydro --with-gravity=fft --enable-fft',
    'gravo': 'simprob --with-gas=hydro --with-gravity=fft_obc --enable-fft --with-eos=isothermal',
    'gravd': 'simprob --with-gas=hydro --with-gravity=fft_disk --enable-fft --with-eos=isothermal',
    'gravs': 'simprob --with-gas=mhd --with-eos=isothermal --with-gravity=fft --enable-fft --enable-shearing-box',
    'gravm': 'simprob --with-gas=mhd --with-gravity=fft --enable-fft --with-integrator=vl --with-order=2p',
    'smrh':  'simprob --with-gas=hydro --with-nscalars=2 --enable-smr --with-flux=hllc',
    'smrm':  'simprob --with-gas=mhd --enable-smr --with-flux=hlld',
    'smrv':  'simprob --with-gas=mhd --enable-smr --with-flux=hlld --with-integrator=vl --with-order=2p --with-nscalars=1',
    'part':  'simprob --with-gas=hydro --with-eos=isothermal --with-particles=feedback --with-flux=roe',
    'parts': 'simprob --with-gas=hydro --with-eos=isothermal --with-particles=feedback --enable-shearing-box --enable-fargo --with-order=3p',
    'partn': 'simprob --with-gas=mhd --with-eos=isothermal --with-particles=passive --enable-shearing-box',
    'partf': 'simprob --with-gas=hydro --with-eos=isothermal --with-particles=feedback --enable-shearing-box',
    'partp': 'simprob --with-gas=hydro --with-eos=isothermal --with-particles=passive --with-integrator=vl --with-order=2p --with-flux=roe',
    'visc':  'simprob --with-gas=hydro --enable-viscosity --enable-conduction --with-flux=hllc',
    'viscs': 'simprob --with-gas=hydro --enable-viscosity --enable-conduction --enable-sts --with-flux=hllc',
    'res':   'simprob --with-gas=mhd --enable-resistivity --enable-conduction --with-flux=hlld',
    'ress':  'simprob --with-gas=mhd --enable-resistivity --enable-conduction --enable-sts --with-flux=hlld',
    'shrd':  'simprob --with-gas=mhd --with-eos=isothermal --enable-resistivity --enable-shearing-box --with-flux=hlld',
    'cool':  'simprob --with-gas=hydro --enable-conduction --enable-cooling --with-flux=hllc',
    'srh':   'simprob --with-gas=hydro --enable-special-relativity --with-integrator=vl --with-order=2p --with-flux=hllc',
    'srm':   'simprob --with-gas=mhd --enable-special-relativity --with-integrator=vl --with-order=2p --with-flux=hlld',
    'cylh':  'simprob --with-gas=hydro --with-coord=cylindrical --with-flux=hllc',
    'cylm':  'simprob --with-gas=mhd --with-coord=cylindrical --with-flux=hlld',
    'cylv':  'simprob --with-gas=mhd --with-coord=cylindrical --with-flux=hlld --with-integrator=vl --with-order=2p',
    'cylf':  'simprob --with-gas=mhd --with-eos=isothermal --with-coord=cylindrical --with-flux=hlld --enable-fargo',
    'cylfh': 'simprob --with-gas=hydro --with-eos=isothermal --with-coord=cylindrical --with-flux=roe --enable-fargo --with-integrator=vl --with-order=3p --enable-fofc',
}.items():
    if not o.startswith('--'): o = '--with-problem=' + o

    CONFIGS.update(both(o, name))

# problems shipped in src/prob: configure options, shipped inputs (below tst/), changes to the input
PROB = {}
for name, o in {
    'blast':      ('--with-gas=hydro', '2D-hydro/athinput.blast 3D-hydro/athinput.blast'),
    'blastm':     ('--with-problem=blast --with-gas=mhd', '2D-mhd/athinput.blast_B1 3D-mhd/athinput.blast_B10'),
    'blastsr':    ('--with-problem=blast --enable-special-relativity --with-integrator=vl --with-order=2p --with-flux=hlld', '2D-sr-mhd/athinput.blast'),
    'carbuncle':  ('--with-gas=hydro --with-flux=roe', '2D-hydro/athinput.carbuncle 3D-hydro/athinput.carbuncle'),
    'cpaw':       ('', '1D-mhd/athinput.cpaw1d 2D-mhd/athinput.cpaw2d 3D-mhd/athinput.cpaw3d'),
    'cshock1d':   ('--with-eos=isothermal --enable-resistivity', '1D-mhd/athinput.cshock1d'),
    'current_sheet': ('--enable-special-relativity --with-integrator=vl --with-order=2p --with-flux=hlld', '2D-sr-mhd/athinput.current-sheet'),
    'cyladvect':  ('--with-coord=cylindrical', 'cylindrical/athinput.cyladvect-2D cylindrical/athinput.cyladvect-3D'),
    'cylblast':   ('--with-coord=cylindrical --with-gas=mhd --with-flux=hlld', 'cylindrical/athinput.cylblast_B1-2D cylindrical/athinput.cylblast_B1-3D'),
    'cylbphi':    ('--with-coord=cylindrical --with-gas=mhd', 'cylindrical/athinput.cylbphi-1D cylindrical/athinput.cylbphi-2D cylindrical/athinput.cylbphi-3D'),
    'cylbr':      ('--with-coord=cylindrical --with-gas=mhd', 'cylindrical/athinput.cylbr-2D cylindrical/athinput.cylbr-3D'),
    'cyldiff':    ('--with-coord=cylindrical --enable-resistivity', 'cylindrical/athinput.cyldiff'),
    'cylfieldloop': ('--with-coord=cylindrical --with-gas=mhd --with-flux=hlld', 'cylindrical/athinput.cylfieldloop-2D cylindrical/athinput.cylfieldloop-3D'),
    'cylnewtmri': ('--with-coord=cylindrical --with-gas=mhd --with-eos=isothermal --with-flux=hlld --enable-fargo', 'cylindrical/athinput.cylnewtmri'),
    'cylrayleigh': ('--with-coord=cylindrical --with-gas=hydro', 'cylindrical/athinput.cylrayleigh-2D cylindrical/athinput.cylrayleigh-3D'),
    'cylspiral':  ('--with-gas=hydro --with-eos=isothermal --with-integrator=vl --with-order=2p --enable-fofc --with-flux=roe --with-coord=cylindrical --enable-fargo', 'cylindrical/athinput.cylspiral-2D'),
    'cylwind':    ('--with-coord=cylindrical --with-gas=hydro', 'cylindrical/athinput.cylwind-1D cylindrical/athinput.cylwind-2D cylindrical/athinput.cylwind-3D'),
    'cylwindrot': ('--with-coord=cylindrical --with-gas=hydro', 'cylindrical/athinput.cylwindrot-1D cylindrical/athinput.cylwindrot-2D cylindrical/athinput.cylwindrot-3D'),
    'cylwindrotb': ('--with-coord=cylindrical --with-gas=mhd', 'cylindrical/athinput.cylwindrotb-1D cylindrical/athinput.cylwindrotb-2D cylindrical/athinput.cylwindrotb-3D'),
    'dmr':        ('--with-gas=hydro', '2D-hydro/athinput.dmr'),
    'field_loop': ('', '2D-mhd/athinput.field_loop 3D-mhd/athinput.field_loop 3D-mhd/athinput.field_loop4'),
    'hall_drift': ('--enable-resistivity', '2D-mhd/athinput.hall_drift'),
    'hb3':        ('--with-eos=isothermal --enable-shearing-box', '2D-mhd/athinput.hb3'),
    'hgb':        ('--with-eos=isothermal --enable-shearing-box', '3D-mhd/athinput.hgb'),
    'hgbf':       ('--with-problem=hgb --with-order=3p --with-eos=isothermal --enable-shearing-box --enable-fargo', '3D-mhd/athinput.hgb'),
    'jeans':      ('--with-gas=hydro --with-gravity=fft --enable-fft', '2D-hydro/athinput.jeans'),
    'jet':        ('--with-gas=hydro --enable-special-relativity --with-integrator=vl --with-order=2p --with-flux=hllc', '2D-sr-hydro/athinput.jet 3D-sr-hydro/athinput.jet'),
    'kh':         ('--with-nscalars=1', '2D-mhd/athinput.kh'),
    'linear_wave': ('', '1D-mhd/athinput.linear_wave1d 2D-mhd/athinput.linear_wave2d 3D-mhd/athinput.linear_wave3d'),
    'lw_implode': ('--with-gas=hydro', '2D-hydro/athinput.lw_implode'),
    'msa':        ('--enable-shearing-box --with-gravity=fft --enable-fft', '3D-mhd/athinput.msa'),
    'noh':        ('--with-gas=hydro --with-flux=roe --enable-h-correction', '2D-hydro/athinput.noh 3D-hydro/athinput.noh'),
    'orszag-tang': ('', '2D-mhd/athinput.orszag-tang'),
    'pgflow':     ('--with-gas=hydro', '1D-hydro/athinput.pgflow 2D-hydro/athinput.pgflow 3D-hydro/athinput.pgflow'),
    'rotor':      ('', '2D-mhd/athinput.rotor'),
    'rt':         ('', '2D-mhd/athinput.rt 3D-mhd/athinput.rt'),
    'shk_cloud':  ('--with-gas=hydro --with-nscalars=1', '2D-hydro/athinput.shk_cloud 3D-hydro/athinput.shk_cloud'),
    'shkset1d':   ('', '1D-mhd/athinput.brio-wu 1D-mhd/athinput.rj2a'),
    'shkset2d':   ('', '2D-mhd/athinput.rj2a'),
    'shkset3d':   ('', '3D-mhd/athinput.rj2a'),
    'shu-osher':  ('--with-gas=hydro', '1D-hydro/athinput.shu-osher'),
    'strat':      ('--with-eos=isothermal --enable-shearing-box', '3D-mhd/athinput.strat'),
    'ti_test':    ('--with-gas=hydro --enable-conduction --enable-cooling', '3D-hydro/athinput.ti_test'),
    'twoibw':     ('--with-gas=hydro', '1D-hydro/athinput.twoibw'),
    'par_collision': ('--with-particles=feedback --with-gas=hydro --with-eos=isothermal', 'particle/athinput.par_collision'),
    'par_epicycle': ('--with-particles=passive --with-gas=hydro --with-eos=isothermal --enable-shearing-box --enable-fargo', 'particle/athinput.par_epicycle'),
    'par_strat2d': ('--enable-shearing-box --enable-fargo --with-particles=feedback --with-gas=hydro --with-eos=isothermal --with-order=3p', 'particle/athinput.par_strat2d'),
    'par_strat3d': ('--enable-shearing-box --enable-fargo --with-particles=feedback --with-gas=hydro --with-eos=isothermal --with-order=3p', 'particle/athinput.par_strat3d'),
    'streaming2d_multi': ('--enable-shearing-box --enable-fargo --with-particles=feedback --with-gas=hydro --with-eos=isothermal --with-order=3p', 'particle/athinput.streaming2d_multi'),
    'streaming2d_single': ('--enable-shearing-box --enable-fargo --with-particles=feedback --with-gas=hydro --with-eos=isothermal --with-order=3p', 'particle/athinput.streaming2d_single'),
    'streaming3d_multi': ('--enable-shearing-box --enable-fargo --with-particles=feedback --with-gas=hydro --with-eos=isothermal --with-order=3p', 'particle/athinput.streaming3d_multi'),
    'streaming3d_single': ('--enable-shearing-box --enable-fargo --with-particles=feedback --with-gas=hydro --with-eos=isothermal --with-order=3p', 'particle/athinput.streaming3d_single'),
}.items():
    opts = (o[0] if '--with-problem' in o[0] else '--with-problem=%s %s' % (name, o[0])).split() + ['--enable-mpi']
    PROB['q' + name] = (' '.join(opts), o[1], o[2] if len(o) > 2 else {}); CONFIGS['q' + name] = opts
