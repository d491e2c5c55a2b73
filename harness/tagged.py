"""Parameters and models with an index table of their own ('notes'), the way packages on top of paramz add their priors."""
import numpy as np
from paramz import Param
from paramz.core.index_operations import ParameterIndexOperations
import zoo


class TParam(Param):
    def __init__(self, name, input_array, default_constraint=None, *a, **kw):
        super(TParam, self).__init__(name=name, input_array=input_array, default_constraint=default_constraint, *a, **kw)
        self.add_index_operation('notes', ParameterIndexOperations())


class _T(object):
    def __init__(self, name='node', tag=None, build=None, parameters=()):
        # the table comes first: linking needs it
        def both(obj):
            obj.add_index_operation('notes', ParameterIndexOperations())
            obj.link_parameters(*parameters)
            if build is not None:
                build(obj)
        super(_T, self).__init__(name, tag, both)


class TZNode(_T, zoo.ZNode):
    pass


class TZModel(_T, zoo.ZModel):
    pass


class TPlain(_T, zoo.PlainNode):
    pass


class TRModel(_T, zoo.RModel):
    pass


def leaf(name, value, zk, constraint=None):
    p = TParam(name, np.array(value, float), constraint)
    p.zk = zk
    zoo.belongings(p, zk)
    return p
