"""A server of storages in this process, at a socket in a scratch directory."""
import os, time
import drvlib as D

import ZEO
import ZEO.asyncio.client
from citrine.client.container_client import ContainerClient

# getting in touch again need not take as long as it usually does
ZEO.asyncio.client.local_random = type('', (), {'random': staticmethod(lambda: 0)})

# news take their time, but stay in order
real = ZEO.asyncio.client.ClientIO.invalidateTransaction


def later(self, tid, oids):
    time.sleep(.01)
    return real(self, tid, oids)


ZEO.asyncio.client.ClientIO.invalidateTransaction = later

CONF = '<filestorage %d>\n path %s\n</filestorage>\n'


def serve(paths, where):
    """Returns the address and how to stop it."""
    sock = os.path.join(where, 'z')
    if len(sock) > 100:
        raise SystemExit('no room for a socket')
    os.chdir(where)
    conf = ''.join(CONF % (n + 1, p) for n, p in enumerate(paths))
    return ZEO.server(storage_conf=conf, port=sock)
