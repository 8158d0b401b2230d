"""C21: the current protocol is scoped, and players are resolved to their own devices."""
import itertools
import json
import os
import tempfile
from collections import OrderedDict

import numpy as np

from vlib import a3, pd, rt
import tensorflow as tf
import tf_encrypted as tfe
from tf_encrypted.player import Player
from tf_encrypted.protocol.aby3 import ABY3
from tf_encrypted.protocol.pond import Pond
from tf_encrypted.protocol.securenn import SecureNN


class Boom(Exception):
    pass


def current(ck, prots, want, what):
    """The current protocol as seen from everywhere a user sees it."""
    ck.true(tfe.get_protocol() is want, "%s: the current protocol is %s" % (what, name(prots, want)))
    for f in ("add", "define_private_variable", "matmul"):
        g = getattr(tfe, f)
        ck.true(getattr(g, "__self__", None) is want, "%s: tfe.%s belongs to %s" % (what, f, name(prots, want)))
    # functions that only some protocols have
    for f, cls in (("bit_extract", ABY3), ("cumsum", Pond), ("lsb", SecureNN)):
        g = getattr(tfe, f, None)
        if want is not None and hasattr(want, f):
            ck.true(getattr(g, "__self__", None) is want, "%s: tfe.%s belongs to %s" % (what, f, name(prots, want)))
        else:
            try:
                g(None, None)
            except Exception:
                pass
            else:
                ck.fail("%s: tfe.%s can be called without a protocol that has it" % (what, f))


def name(prots, p):
    return "none" if p is None else "protocol %d" % prots.index(p) if p in prots else "an unknown protocol"


def _scopes(ck, depth, part, parts):
    """All well nested sequences of entering, leaving (with or without an exception) and setting protocols."""
    rt.use_config(debug=False)
    rt.set_mode("det")
    prots = [ABY3(), Pond(), SecureNN()]
    acts = [("enter", 0), ("enter", 1), ("enter", 2), ("leave", None), ("raise", None), ("set", 0), ("set", 1), ("set", None)]
    k = 0
    for seq in itertools.product(acts, repeat=depth):
        k += 1
        if k % parts != part:
            continue
        d, ok = 0, True
        for a, _ in seq:
            d += {"enter": 1, "set": 0}.get(a, -1)
            ok = ok and d >= 0
        if not ok:
            continue
        for first in (prots[2], None) if depth <= 4 else (prots[2],):
            tfe.set_protocol(first)
            cur, stack = first, []
            for n, (a, i) in enumerate(seq):
                p = prots[i] if i is not None else None
                if a == "enter":
                    ck.true(p.__enter__() is p, "entering gives the protocol")
                    stack.append((p, cur))
                    cur = p
                elif a == "set":
                    tfe.set_protocol(p)
                    cur = p
                else:
                    p, back = stack.pop()
                    if a == "leave":
                        p.__exit__(None, None, None)
                    else:
                        e = Boom()
                        ck.true(not p.__exit__(Boom, e, None), "exceptions are passed on")
                    cur = back
                ck.true(tfe.get_protocol() is cur, "%s: the current protocol is %s after step %d" % (seq, name(prots, cur), n))
            current(ck, prots, cur, str(seq))
            while stack:
                p, cur = stack.pop()
                p.__exit__(None, None, None)
                ck.true(tfe.get_protocol() is cur, "%s then leaving: the current protocol is %s" % (seq, name(prots, cur)))
            ck.count(0, states=len(seq) + 1, transitions=len(seq), traces=1)
    tfe.set_protocol(None)


def _with(ck):
    """The same through with statements, with computations inside."""
    rt.use_config(debug=False)
    rt.set_mode("det")
    prots = [ABY3(), Pond(), SecureNN()]
    for a, b, c in itertools.product(prots, repeat=3):
        for boom in (None, 0, 1, 2):
            tfe.set_protocol(None)
            levels = []
            try:
                with a as aa:
                    levels.append(tfe.get_protocol())
                    x = tfe.define_private_variable(np.array([1.0, 2.0]))
                    ck.true(aa is a and x.prot is a, "what is defined belongs to the context")
                    if boom == 0:
                        raise Boom()
                    try:
                        with b:
                            y = tfe.define_private_variable(np.array([3.0, -1.0]))
                            ck.true(y.prot is b and x.prot is a, "tensors keep their protocol")
                            if boom == 1:
                                raise Boom()
                            with c:
                                ck.true(tfe.get_protocol() is c, "innermost")
                                if boom == 2:
                                    raise Boom()
                                # tensors of the outer contexts still work, whatever is current
                                ck.close(np.asarray((x + x * 2).reveal().to_native()), [3.0, 6.0], 2.0 ** -6, "computing with an outer tensor")
                                ck.close(np.asarray((y - 1).reveal().to_native()), [2.0, -2.0], 2.0 ** -6, "computing with an outer tensor")
                            ck.true(tfe.get_protocol() is b, "back from the innermost")
                    except Boom:
                        pass
                    ck.true(tfe.get_protocol() is a, "back in the outermost")
                    z = tfe.define_public_variable(np.array([1.0]))
                    ck.true(z.prot is a, "defined in the outermost again")
            except Boom:
                pass
            ck.true(tfe.get_protocol() is None, "nothing is left set")
            current(ck, prots, None, "after the with statements")
            ck.count(0, states=7, transitions=6, traces=1)


def _set_config(ck):
    """A new configuration forgets the protocol of the old one."""
    for n in range(3):
        rt.use_config(debug=False)
        ck.true(tfe.get_protocol() is None, "no protocol after set_config")
        p = [ABY3, Pond, SecureNN][n]()
        tfe.set_protocol(p)
        current(ck, [p], p, "set")
        c = tfe.LocalConfig(["server0", "server1", "server2"])
        tfe.set_config(c)
        ck.true(tfe.get_config() is c, "the configuration set is the one in force")
        current(ck, [p], None, "after set_config")
        for dbg in (True, False):
            c.set_debug_mode(dbg)
            ck.true(tfe.get_config().debug is dbg, "debug mode")
        ck.count(0, states=4, traces=1)
    rt.use_config()


# -- players -------------------------------------------------------------------------------------------------
NAMES = ["server0", "a", "server1", "Server 0", "server10", "", "ünï", "x,y"]


def _remote(ck, size, part, parts):
    k = 0
    d = tempfile.mkdtemp(dir=ck.scratch)
    for names in itertools.permutations(NAMES, size):
        k += 1
        if k % parts != part:
            continue
        hm = OrderedDict((n, "h%d:%d" % ((i * 7) % 5, 4000 + i)) for i, n in enumerate(names))
        for job in ("tfe", "other"):
            c = tfe.RemoteConfig(hm) if job == "tfe" else tfe.RemoteConfig(hm, job_name=job)
            _config(ck, c, names, hm, job)
        f = os.path.join(d, "c%d" % k)
        c = tfe.RemoteConfig(hm)
        c.save(f)
        for again in range(2):
            l = tfe.RemoteConfig.load(f)
            _config(ck, l, names, hm, "tfe")
            ck.true(list(l.hostmap.items()) == list(hm.items()), "host map loaded")
            l.save(f)
        ck.true(list(json.load(open(f), object_pairs_hook=OrderedDict).items()) == list(hm.items()), "the file is the host map")
        os.unlink(f)
        ck.count(0, states=3, traces=3)


def _config(ck, c, names, hm, job):
    ps = c.players
    ck.true([p.name for p in ps] == list(names), "players in the order of the map")
    ck.true([p.index for p in ps] == list(range(len(names))), "indices count the players")
    ck.true([p.host for p in ps] == list(hm.values()), "hosts of the players")
    ck.true(list(c.hosts) == list(hm.values()), "hosts")
    ck.true(list(c.hostmap.items()) == list(hm.items()), "host map")
    for i, n in enumerate(names):
        p = c.get_player(n)
        ck.true(p is ps[i] and p.name == n and p.host == hm[n], "player %r" % n)
        ck.true(c.get_player(p) is p, "a player stands for itself")
        s = tf.DeviceSpec.from_string(p.device_name)
        ck.true((s.job, s.replica, s.task, s.device_type, s.device_index) == (job, 0, i, "CPU", 0), "device of player %r" % n)
    ck.true(len({p.device_name for p in ps}) == len(ps), "every player has a device of its own")
    ck.true(c.get_player("nobody") is None, "an unknown player")
    try:
        c.get_player(Player("server0", 0, ps[0].device_name))
    except AssertionError:
        pass
    else:
        ck.fail("a player of another configuration was accepted")
    _subsets(ck, c, names)


def _subsets(ck, c, names):
    for r in range(len(names) + 1):
        for sub in itertools.combinations(names, r):
            got = c.get_players(list(sub))
            ck.true(sorted(p.name for p in got) == sorted(sub), "players %s" % (sub,))
            if all("," not in n and n.strip() == n and n for n in sub) and sub:
                for sep in (",", ", "):
                    got = c.get_players(sep.join(sub))
                    ck.true(sorted(p.name for p in got) == sorted(sub), "players %s by a string" % (sub,))
    ck.true([p.name for p in c.get_players(["nobody"] + list(names[:1]))] == list(names[:1]), "unknown players are left out")


def _local(ck):
    for auto in (True, False):
        for size in range(4):
            for names in itertools.permutations(NAMES[:5], size):
                for asked in itertools.permutations(NAMES[:4], 2):
                    c = tfe.LocalConfig(list(names), auto_add_unknown_players=auto)
                    ck.true([p.name for p in c.players] == list(names), "local players")
                    have = list(names)
                    for n in asked + asked:
                        p = c.get_player(n)
                        if n not in have and auto:
                            have.append(n)
                        if n in have:
                            ck.true(p is not None and p.name == n and p.index == have.index(n), "player %s" % n)
                            ck.true(c.get_player(n) is p and c.get_player(p) is p, "the same player every time")
                        else:
                            ck.true(p is None, "an unknown player")
                        ck.true([q.name for q in c.players] == have, "players after looking one up")
                        ck.true([q.index for q in c.players] == list(range(len(have))), "indices")
                    _subsets(ck, c, have)
                    ck.count(0, states=5, transitions=4, traces=1)
            if size == 0:
                c = tfe.LocalConfig(auto_add_unknown_players=auto)
                ck.true(list(c.players) == [], "no players")


class Recorder:
    """Stands for a server: keeps what it was started with."""

    made = []

    def __init__(self, server_or_cluster_def, job_name=None, task_index=None, protocol=None, config=None, start=True):
        cl = server_or_cluster_def
        if not isinstance(cl, tf.train.ClusterSpec):
            cl = tf.train.ClusterSpec(cl)
        self.spec, self.job, self.index, self.start = cl.as_dict(), job_name, task_index, start
        self.target = "grpc://" + cl.task_address(job_name or cl.jobs[0], task_index or 0)
        Recorder.made.append(self)


def _servers(ck, size):
    """Every player's server is the task with its index at its own address, among the addresses of all."""
    from unittest import mock

    names = ("server0", "server1", "server2", "alice", "bob")
    hosts = ("10.0.0.9:1111", "10.0.0.1:2222", "b.example:3333", "a.example:4444", "10.0.0.1:5555")
    with mock.patch.object(tf.distribute, "Server", Recorder):
        for ns in itertools.permutations(names, size):
            for job in ("tfe", "other"):
                hm = OrderedDict((n, hosts[(names.index(n) + 2 * size) % 5]) for n in ns)
                c = tfe.RemoteConfig(hm, job_name=job) if job != "tfe" else tfe.RemoteConfig(hm)
                for n in ns:
                    for st in (True, False):
                        Recorder.made.clear()
                        s = c.start_server(n, start=st)
                        ck.true(len(Recorder.made) == 1 and s is Recorder.made[0], "one server is started and returned")
                        ck.true(s.spec == {job: list(hm.values())}, "the server of %s knows %s" % (n, s.spec))
                        ck.true((s.job, s.index, s.start) == (job, ns.index(n), st), "the server of %s is task %s of %s" % (n, s.index, s.job))
                        ck.true(s.target == "grpc://" + hm[n], "the server of %s is at %s" % (n, s.target))
                    d = tf.DeviceSpec.from_string(c.get_player(n).device_name)
                    ck.true((d.job, d.task) == (job, ns.index(n)), "%s is on %s" % (n, c.get_player(n).device_name))
                for bad in ("nobody", ""):
                    try:
                        c.start_server(bad)
                    except Exception:
                        pass
                    else:
                        ck.fail("a server for an unknown player")
                ck.count(0, states=size, traces=size)
        # connecting goes to the same addresses, in the order of the tasks
        calls = []

        def rec(remote_host=None, job_name="worker"):
            calls.append((list(remote_host), job_name))

        with mock.patch.object(tf.config, "experimental_connect_to_host", rec):
            for ns in itertools.permutations(names[:3]):
                for job in ("tfe", "other"):
                    hm = OrderedDict((n, hosts[names.index(n)]) for n in ns)
                    calls.clear()
                    tfe.RemoteConfig(hm, job_name=job).connect_servers()
                    ck.true(calls == [(list(hm.values()), job)], "connecting to %s" % (calls,))


def _roles(ck, prot, by):
    """Every assignment of players to the roles of a protocol: values, shares and triples live where they belong."""
    for roles in itertools.permutations(rt.PLAYERS, 3):
        if ck.quick and roles[0] > roles[2] and by == "name":
            continue
        c = rt.use_config(debug=True)
        rt.set_mode("det")
        who = [c.get_player(r) for r in roles]
        arg = [r if by == "name" else w for r, w in zip(roles, who)]
        if prot == "aby3":
            p = ABY3(server_0=arg[0], server_1=arg[1], server_2=arg[2])
            got = p.servers
        else:
            p = (Pond if prot == "pond" else SecureNN)(arg[0], arg[1], who[2])
            got = [p.server_0, p.server_1, p.triple_source.producer if prot == "pond" else p.server_2]
        tfe.set_protocol(p)
        ck.true([g.name for g in got] == list(roles), "roles %s are held by %s" % (roles, [g.name for g in got]))
        x = p.define_private_input("input-provider", lambda: tf.constant([1.5, -2.0]))
        y = p.define_private_variable(np.array([3.0, 0.5]))
        z = p.mul(x, y)
        devs = [w.device_name for w in who]
        for t in (x, y, z):
            sh = t.unwrapped
            for i in range(3 if prot == "aby3" else 2):
                for s in sh[i] if prot == "aby3" else [sh[i]]:
                    ck.true(s.device == devs[i], "share %d of %s is on %s" % (i, roles, s.device))
        ck.close(np.asarray(z.reveal().to_native()), [4.5, -1.0], 2.0 ** -6, "product with roles %s" % (roles,))
        ck.count(0, states=1, traces=1)
    c = rt.use_config(debug=True)
    p = {"aby3": ABY3, "pond": Pond, "securenn": SecureNN}[prot]()
    got = p.servers if prot == "aby3" else [p.server_0, p.server_1, p.triple_source.producer]
    ck.true([g.name for g in got] == ["server0", "server1", "server2"], "roles by default")


def run(ck):
    q = ck.quick
    for d in range(1, (6 if q else 8)):
        parts = 1 if d < 4 else 4 if d < 5 else 16 if d < 6 else 32 if d < 7 else 128
        for i in range(parts):
            ck.case("scopes/%d/%d" % (d, i), _scopes, ck, d, i, parts)
    ck.case("with", _with, ck)
    ck.case("set_config", _set_config, ck)
    for size in range(1, 4 if q else 6):
        parts = 1 if size < 4 else 4
        for i in range(parts):
            ck.case("remote/%d/%d" % (size, i), _remote, ck, size, i, parts)
    ck.case("local", _local, ck)
    for size in (1, 2, 3):
        ck.case("servers/%d" % size, _servers, ck, size)
    for prot in ("aby3", "pond", "securenn"):
        for by in ("name", "player"):
            ck.case("roles/%s/%s" % (prot, by), _roles, ck, prot, by)
