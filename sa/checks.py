import c_build, c_circ, c_eval, c_ref, c_read, c_write, c_meta, c_err, c_util, c_net, c_pure
