#!/usr/bin/env python3
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core
if sys.argv[1:] == ['--selftest']:
    # nothing is built ahead: Jython compiles /repo's sources in memory
    run = core.execute([{'s': [['c', None, 'messaging.sms:is_gsm_text',
                                [core.S('ok')]]]}])
    sys.exit(0 if core.R(run.res[0][0]).val is True else 1)
sys.exit(core.main(sys.argv[1:]))
