"""Small instances of real processing objects: name -> (object, inputs, outputs) built from ctx values."""
from .util import simul_params, value


def efield(c, name, n=2, m=None, S0=1.0, lo=-5, hi=5, alo=0.0, ahi=1.0, pitch=1.0):
    """an electric field with symbolic amplitude and phase, n rows, m columns"""
    from specula.data_objects.electric_field import ElectricField
    m = m or n
    ef = ElectricField(m, n, pitch, S0=S0, target_device_idx=-1)
    ef.A = c.arr(name + 'A', (n, m), alo, ahi)
    ef.phaseInNm = c.arr(name + 'P', (n, m), lo, hi)
    return ef


def layer(c, name, n=2, m=None, height=0.0, lo=-5, hi=5, alo=0.0, ahi=1.0, pitch=1.0, A=True, **k):
    from specula.data_objects.layer import Layer
    m = m or n
    ly = Layer(m, n, pitch, height, target_device_idx=-1, **k)
    if A:
        ly.A = c.arr(name + 'A', (n, m), alo, ahi)
    ly.phaseInNm = c.arr(name + 'P', (n, m), lo, hi)
    return ly


def slopes(c, name, n=4, **k):
    from specula.data_objects.slopes import Slopes
    return Slopes(slopes=c.arr(name, n), target_device_idx=-1, **k)


def z_operation(c, **k):
    from specula.processing_objects.base_operation import BaseOperation
    o = BaseOperation(**k, target_device_idx=-1)
    a = value(c, c.arr('a', 2))
    ins = {'in_value1': a}
    o.inputs['in_value1'].set(a)
    if any(k.get(x) for x in ('sum', 'sub', 'mul', 'div', 'concat')):
        b = value(c, c.arr('b', 2, 1, 4))
        o.inputs['in_value2'].set(b)
        ins['in_value2'] = b
    return o, ins, 'value'


def z_slicer(c, **k):
    from specula.processing_objects.base_slicer import BaseSlicer
    o = BaseSlicer(**k, target_device_idx=-1)
    a = value(c, c.arr('a', 4))
    o.inputs['in_value'].set(a)
    return o, {'in_value': a}, 'value'


def z_inserter(c):
    from specula.processing_objects.base_inserter import BaseInserter
    o = BaseInserter(5, slice_args=[[0, 3], [1, 4]], target_device_idx=-1)
    a = value(c, c.arr('a', 3))
    o.inputs['in_value'].set(a)
    return o, {'in_value': a}, 'value'


def z_mvm(c):
    from specula.processing_objects.mvm import MVM
    from specula.data_objects.recmat import Recmat
    o = MVM(Recmat(c.arr('m', (2, 3), -2, 2), target_device_idx=-1), target_device_idx=-1)
    a = value(c, c.arr('a', 3))
    o.inputs['in_vector'].set(a)
    return o, {'in_vector': a}, 'value'


def z_modalrec(c):
    from specula.processing_objects.modalrec import Modalrec
    from specula.data_objects.recmat import Recmat
    o = Modalrec(recmat=Recmat(c.arr('m', (2, 4), -2, 2), target_device_idx=-1), target_device_idx=-1)
    s = slopes(c, 's')
    o.inputs['in_slopes'].set(s)
    return o, {'in_slopes': s}, 'value'


def z_integrator(c):
    from specula.processing_objects.integrator import Integrator
    o = Integrator(simul_params(), int_gain=[0.5, 0.25], target_device_idx=-1)
    a = value(c, c.arr('a', 2))
    o.inputs['delta_comm'].set(a)
    return o, {'delta_comm': a}, 'value'


def z_dm(c):
    from specula.processing_objects.dm import DM
    from specula.data_objects.ifunc import IFunc
    ifunc = IFunc(c.arr('if', (2, 3), -1, 1), mask=c.const([[1, 1], [1, 0]]), target_device_idx=-1)
    o = DM(simul_params(pixel_pupil=2), height=0, ifunc=ifunc, target_device_idx=-1)
    a = value(c, c.arr('a', 2))
    o.inputs['in_command'].set(a)
    return o, {'in_command': a}, 'field'


def z_efcomb(c):
    from specula.processing_objects.electric_field_combinator import ElectricFieldCombinator
    o = ElectricFieldCombinator(target_device_idx=-1)
    a, b = efield(c, 'a'), efield(c, 'b')
    o.inputs['in_ef1'].set(a)
    o.inputs['in_ef2'].set(b)
    return o, {'in_ef1': a, 'in_ef2': b}, 'field'


def z_efrefl(c):
    from specula.processing_objects.electric_field_reflection import ElectricFieldReflection
    o = ElectricFieldReflection(target_device_idx=-1)
    a = efield(c, 'a')
    o.inputs['in_ef'].set(a)
    return o, {'in_ef': a}, 'field'


def z_flatten(c):
    from specula.processing_objects.phase_flattening import PhaseFlattening
    o = PhaseFlattening(target_device_idx=-1)
    a = efield(c, 'a', alo=0.5)
    o.inputs['in_ef'].set(a)
    return o, {'in_ef': a}, 'field'


def z_lincomb(c):
    from specula.processing_objects.linear_combination import LinearCombination
    o = LinearCombination(simul_params(), no_focus=True, no_lift=True, target_device_idx=-1)
    a, b = value(c, c.arr('a', 4)), value(c, c.arr('b', 2))
    o.inputs['in_vectors_list'].set([a, b])
    return o, {'0': a, '1': b}, 'value'


def z_window(c):
    from specula.processing_objects.windowed_integration import WindowedIntegration
    o = WindowedIntegration(simul_params(), n_elem=2, dt=1.0, target_device_idx=-1)
    a = value(c, c.arr('a', 2))
    o.inputs['input'].set(a)
    return o, {'input': a}, 'value'


ZOO = dict(op_sum=lambda c: z_operation(c, sum=True), op_mul=lambda c: z_operation(c, mul=True),
           op_const=lambda c: z_operation(c, constant_mul=3.0), op_max=lambda c: z_operation(c, constant_max=0.5),
           op_concat=lambda c: z_operation(c, concat=True),
           slicer=lambda c: z_slicer(c, slice_args=[1, 3]), slicer_idx=lambda c: z_slicer(c, indices=[0, 2]),
           slicer_all=lambda c: z_slicer(c),
           inserter=z_inserter, mvm=z_mvm, modalrec=z_modalrec, integrator=z_integrator, dm=z_dm, efcomb=z_efcomb,
           efrefl=z_efrefl, flatten=z_flatten, lincomb=z_lincomb, window=z_window)


def payload(obj, kind):
    """the data of an output object"""
    return getattr(obj, kind)
