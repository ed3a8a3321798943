"""Process set-up shared by every check: TensorFlow in TF1 mode, /repo on the path.

Import this module before anything that imports tensorflow or tensorD."""
import os
import sys
import warnings

os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ['CUDA_VISIBLE_DEVICES'] = ''
os.environ.setdefault('TF_ENABLE_ONEDNN_OPTS', '0')
sys.dont_write_bytecode = True
warnings.filterwarnings('ignore')

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
sys.path.insert(0, REPO)

import numpy as np  # noqa: E402

import logging  # noqa: E402

logging.getLogger('tensorflow').setLevel(logging.CRITICAL)

import tensorflow.compat.v1 as tf1  # noqa: E402

tf1.disable_v2_behavior()
sys.modules['tensorflow'] = tf1
tf1.logging.set_verbosity(tf1.logging.FATAL)
logging.getLogger('tensorflow').setLevel(logging.CRITICAL)
np.seterr(all='ignore')

RealSession = tf1.Session


def config(grappler=False):
    c = tf1.ConfigProto(intra_op_parallelism_threads=1, inter_op_parallelism_threads=1,
                        device_count={'GPU': 0})
    if not grappler:
        from tensorflow.core.protobuf import rewriter_config_pb2
        c.graph_options.rewrite_options.disable_meta_optimizer = True
        c.graph_options.optimizer_options.opt_level = -1
    return c


def evaluate(fetches, feed=None):
    """Runs fetches of the current default graph in a plain single-threaded session."""
    with RealSession(config=config()) as s:
        return s.run(fetches, feed)
