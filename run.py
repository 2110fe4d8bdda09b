#!/usr/bin/env python3
"""python run.py <property id> [--tier quick|thorough] [--replay file]"""
import os, sys
VENV = '/opt/venv/bin/python'
if os.environ.get('PYTHONHASHSEED') != '0' or (os.path.exists(VENV) and sys.prefix != '/opt/venv'):
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    if env.get('SYMX_REEXEC') != '1':
        env['SYMX_REEXEC'] = '1'
        os.execve(VENV if os.path.exists(VENV) else sys.executable, [VENV, '-B', '-W', 'ignore'] + [os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx.run import main
sys.exit(main())
