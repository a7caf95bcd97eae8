"""Two-host topologies on one machine: the remote end is started by a stand-in for ssh that just runs the remote command line."""
import os
from . import pg

SSH = '''#!/bin/sh
for a; do :; done
exec /bin/sh -c "exec $a"
'''


def rconf(e, **kw):
    """configuration file of the other host"""
    for d in ('rlock', 'rlog', 'rspool'):
        os.makedirs(e.root + '/' + d, exist_ok=True)
    g = {'log-level-console': 'off', 'log-level-file': 'off', 'log-level-stderr': 'off', 'lock-path': e.root + '/rlock', 'log-path': e.root + '/rlog',
         'spool-path': e.root + '/rspool'}
    g.update({k.replace('_', '-'): v for k, v in kw.items()})
    with open(e.root + '/r.conf', 'w') as f:
        f.write('[global]\n' + ''.join('%s=%s\n' % x for x in g.items()))


def split(e, kind, ssh=None, **kw):
    """kind 'repo': commands run on the database host with the repository on another host; 'pg': on the repository host"""
    p = e.root + '/ssh.sh'
    with open(p, 'w') as f:
        f.write(ssh or SSH)
    os.chmod(p, 0o755)
    rconf(e, **kw)
    e.conf(cmd_ssh=p)
    if kind == 'repo':
        for i in range(1, e.repos + 1):
            e.conf(**{'repo%d_host' % i: 'rhost%d' % i, 'repo%d_host_user' % i: 'u', 'repo%d_host_cmd' % i: e.bin, 'repo%d_host_config' % i: e.root + '/r.conf'})
    else:
        for i in range(1, len(e.pgs) + 1):
            e.sopts.update({'pg%d-host' % i: 'phost%d' % i, 'pg%d-host-user' % i: 'u', 'pg%d-host-cmd' % i: e.bin, 'pg%d-host-config' % i: e.root + '/r.conf'})
        e.conf()
    return e


def rrun(e, cmd, *args, **kw):
    """a command on the other host"""
    return e.run(cmd, *args, config=e.root + '/r.conf', **kw)
