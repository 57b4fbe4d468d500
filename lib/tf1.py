"""TensorFlow 1 interface on top of the installed TensorFlow 2 (tensorflow.compat.v1).

Three layers of TensorFlow 1 are missing from it (tf.layers.dense, tf.layers.dropout, tf.nn.rnn_cell.LSTMCell); they are defined here from variables and
basic operations, as TensorFlow 1 documents them.
"""
import os
import sys
import types

_tf = []


def _dense(tf):
    def dense(inputs, units, activation=None, use_bias=True, kernel_initializer=None, bias_initializer=None, kernel_regularizer=None, bias_regularizer=None,
              activity_regularizer=None, kernel_constraint=None, bias_constraint=None, trainable=True, name=None, reuse=None):
        units = int(units)
        with tf.variable_scope(name, default_name="dense", reuse=reuse):
            size = int(inputs.shape[-1])
            kernel = tf.get_variable("kernel", [size, units], dtype=inputs.dtype.base_dtype, initializer=kernel_initializer, trainable=trainable)
            result = tf.tensordot(inputs, kernel, [[len(inputs.shape) - 1], [0]])
            if use_bias:
                bias = tf.get_variable("bias", [units], dtype=inputs.dtype.base_dtype, initializer=bias_initializer or tf.zeros_initializer(), trainable=trainable)
                result = result + bias
            result.set_shape(inputs.shape[:-1].concatenate([units]))
            return activation(result) if activation is not None else result
    return dense


def _dropout(tf):
    def dropout(inputs, rate=0.5, noise_shape=None, seed=None, training=False, name=None):
        if isinstance(training, bool):
            return tf.nn.dropout(inputs, rate=rate, noise_shape=noise_shape, seed=seed) if training else tf.identity(inputs)
        return tf.cond(training, lambda: tf.nn.dropout(inputs, rate=rate, noise_shape=noise_shape, seed=seed), lambda: tf.identity(inputs))
    return dropout


def _lstm(tf):
    class LSTMStateTuple(tuple):
        pass

    class LSTMCell(object):
        def __init__(self, num_units, forget_bias=1.0, activation=None, reuse=None, name=None):
            self.num_units, self.forget_bias, self.activation = int(num_units), forget_bias, activation or tf.tanh
            self._reuse, self._name = reuse, name or "lstm_cell"

        @property
        def state_size(self):
            return (self.num_units, self.num_units)

        @property
        def output_size(self):
            return self.num_units

        def zero_state(self, batch_size, dtype):
            return (tf.zeros([batch_size, self.num_units], dtype), tf.zeros([batch_size, self.num_units], dtype))

        def get_initial_state(self, inputs=None, batch_size=None, dtype=None):
            return self.zero_state(tf.shape(inputs)[0] if inputs is not None else batch_size, dtype)

        def __call__(self, inputs, state, scope=None):
            c, m = state
            with tf.variable_scope(scope or self._name, reuse=self._reuse):
                kernel = tf.get_variable("kernel", [int(inputs.shape[-1]) + self.num_units, 4 * self.num_units])
                bias = tf.get_variable("bias", [4 * self.num_units], initializer=tf.zeros_initializer())
                gates = tf.matmul(tf.concat([inputs, m], 1), kernel) + bias
                i, j, f, o = tf.split(gates, 4, axis=1)
                new_c = tf.sigmoid(f + self.forget_bias) * c + tf.sigmoid(i) * self.activation(j)
                new_m = tf.sigmoid(o) * self.activation(new_c)
                return new_m, (new_c, new_m)
    return LSTMCell


def install():
    """makes `import tensorflow` give the TensorFlow 1 interface in this process; returns it"""
    if not _tf:
        os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
        os.environ["CUDA_VISIBLE_DEVICES"] = ""
        os.environ.setdefault("TF_ENABLE_ONEDNN_OPTS", "0")
        if "TF_NUM_INTRAOP_THREADS" not in os.environ:
            os.environ["TF_NUM_INTRAOP_THREADS"] = os.environ["TF_NUM_INTEROP_THREADS"] = "1"
        devnull, saved = os.open(os.devnull, os.O_WRONLY), os.dup(2)
        os.dup2(devnull, 2)
        try:
            import tensorflow.compat.v1 as tf
        finally:
            os.dup2(saved, 2)
            os.close(saved)
            os.close(devnull)
        import logging
        tf.disable_v2_behavior()
        logging.getLogger("tensorflow").setLevel(logging.ERROR)
        tf.logging.set_verbosity(tf.logging.ERROR)

        class Names(types.ModuleType):
            """a module of TensorFlow with some names replaced"""

            def __init__(self, base, names):
                types.ModuleType.__init__(self, base.__name__ if hasattr(base, "__name__") else "tensorflow")
                self.__dict__["_base"] = base
                self.__dict__.update(names)

            def __getattr__(self, name):
                if name.startswith("__"):
                    raise AttributeError(name)
                return getattr(self.__dict__["_base"], name)

        cells = types.ModuleType("tensorflow.nn.rnn_cell")
        cells.LSTMCell = cells.BasicLSTMCell = _lstm(tf)
        layers = types.ModuleType("tensorflow.layers")
        layers.dense, layers.dropout = _dense(tf), _dropout(tf)
        def conv2d(input, filter=None, strides=None, padding=None, use_cudnn_on_gpu=True, data_format="NHWC", dilations=(1, 1, 1, 1), name=None, filters=None):
            # the installed CPU kernels have no gradient of dilated convolutions
            filter = filters if filter is None else filter
            if all(int(d) == 1 for d in dilations):
                return tf.nn.conv2d(input, filter, strides, padding, dilations=[1, 1, 1, 1], name=name)
            assert all(int(s) == 1 for s in strides) and data_format == "NHWC"
            return tf.nn.convolution(input, filter, padding, dilation_rate=[int(d) for d in dilations[1:3]], name=name)

        nn = Names(tf.nn, {"rnn_cell": cells, "conv2d": conv2d})
        result = Names(tf, {"nn": nn, "layers": layers})
        _tf.append(result)
    sys.modules["tensorflow"] = _tf[0]
    return _tf[0]
