"""Realistic changes to Ericsson/paf which break a property, each with a
demonstration.  mkseeds.py turns them into /verif/seeded/."""

SEEDS = {}


def seed(name, property, needs, breaks, edits, demo):
    SEEDS[name] = {"property": property, "needs": needs, "breaks": breaks,
                   "edits": edits, "demo": demo}


seed("c01-nochange-silent", "C01",
     "a subscriber, and a republication with a newer generation which "
     "leaves the properties as they are (only TTL or generation change)",
     "Subscription.notify drops a modification which leaves the properties "
     "alone, so the subscriber's view keeps an old generation and TTL",
     [("paf/sd.py",
       """            after = service.props()
            if self.matches(before) and self.matches(after):
""",
       """            after = service.props()
            if before == after:
                return
            if self.matches(before) and self.matches(after):
""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
b = net.client(2)
ta = b.send("subscribe", subscription_id=7)
a.publish(5, generation=1, ttl=5, x=["y"])
a.publish(5, generation=2, ttl=9, x=["y"])
got = [(m["match-type"], m.get("generation"), m.get("ttl"))
       for m in b.replies(ta) if m["msg-type"] == "notify"]
expect("notifications", got, [("appeared", 1, 5), ("modified", 2, 9)])
""")

seed("c01-appeared-as-modified", "C01",
     "a subscriber whose filter did not match a service before and matches "
     "after a republication by a client that also takes it over",
     "the service turns up as modified without ever having appeared",
     [("paf/sd.py",
       """                self.match_cb(self.sub_id, MatchType.MODIFIED, service)
            elif not self.matches(before) and self.matches(after):
""",
       """                self.match_cb(self.sub_id, MatchType.MODIFIED, service)
            elif self.matches(after) and \\
                    service.client_id() != service.prev_client_id():
                self.match_cb(self.sub_id, MatchType.MODIFIED, service)
            elif not self.matches(before) and self.matches(after):
""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
b = net.client(2)
c = net.client(3)
ta = c.send("subscribe", subscription_id=7, filter="(k=v)")
a.publish(5, generation=1, k=["u"])
b.publish(5, generation=2, k=["v"])
got = [m["match-type"] for m in c.replies(ta) if m["msg-type"] == "notify"]
expect("notifications", got, ["appeared"])
""")

seed("c07-orphan-since-last-seen", "C07",
     "a client which has been silent for a while before its connection "
     "ends",
     "the orphan's time is counted from when the client was last heard of, "
     "so the service is removed before its TTL has elapsed",
     [("paf/sd.py",
       """        for service in inactivated.get_services():
            with service.modify() as change:
                change.orphan_since = inactivated.disconnected_at
""",
       """        for service in inactivated.get_services():
            with service.modify() as change:
                change.orphan_since = inactivated.last_seen
""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
b = net.client(2, lo=2, hi=2)
a.publish(5, ttl=8)
net.run(3)
a.leave()
net.run(6)
expect("services after 6 of 8 s", len(b.listing()), 1)
net.run(3)
expect("services after 9 of 8 s", len(b.listing()), 0)
""")

seed("c09-charge-before-check", "C09",
     "a subscription limit, and a subscribe request re-using an existing "
     "subscription identity",
     "the refused request leaves a charge behind, and later requests "
     "within the limit are refused",
     [("paf/sd.py",
       """        if self.db.has_subscription(sub_id):
            raise AlreadyExistsError("subscription", sub_id)

        self.resource_manager.allocate(self.user_id,
                                       ResourceType.SUBSCRIPTION)
""",
       """        self.resource_manager.allocate(self.user_id,
                                       ResourceType.SUBSCRIPTION)

        if self.db.has_subscription(sub_id):
            raise AlreadyExistsError("subscription", sub_id)
""")],
     """
from net import Net, expect

net = Net(user={"subscriptions": 2})
a = net.client(1)
expect("first", a.ask("subscribe", subscription_id=1), "accept")
expect("again", a.ask("subscribe", subscription_id=1),
       "subscription-id-exists")
expect("second", a.ask("subscribe", subscription_id=2), "accept")
expect("third", a.ask("subscribe", subscription_id=3),
       "insufficient-resources")
""")

seed("c10-failed-hello-admits", "C10",
     "a hello that fails, followed by another request on the same "
     "connection",
     "a connection whose hello was refused is let past the handshake check "
     "with the identity it asked for",
     [("paf/server.py",
       """        if in_msg.cmd() == proto.CMD_HELLO or self.handshaked:
""",
       """        if in_msg.cmd() == proto.CMD_HELLO or \\
           self.client_id is not None:
""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
a.publish(5)
b = net.join()
expect("hello", b.hello(1), "client-id-exists")
expect("unpublish", b.ask("unpublish", service_id=5), "no-hello")
expect("services", len(a.listing()), 1)
""")

seed("c12-ipv6-user", "C12",
     "two peers on different IPv6 addresses with a common prefix, one "
     "asking for the identity of the other's orphan",
     "the user of an IPv6 peer is derived from the part of its address "
     "before the first colon only, so different peers are the same user",
     [("paf/server.py",
       """            ip = ip_port.rsplit(":", 1)[0]
""",
       """            ip = ip_port.split(":")[0]
""")],
     """
from net import Net, expect

net = Net()
a = net.client(1, addr="tcp:[2001:db8::1]:5")
a.publish(5, ttl=20)
a.leave()
b = net.join(addr="tcp:[2001:db8::2]:5")
expect("hello of another user", b.hello(1), "permission-denied")
c = net.join(addr="tcp:[2001:db8::1]:7")
expect("hello of the same user", c.hello(1), "complete")
""")

seed("c14-invalid-filter-leaves-ta", "C14",
     "two multi-response requests with the same transaction identity, the "
     "first of which was refused",
     "a refused request no longer ends its transaction, so the transaction "
     "identity cannot be used again",
     [("paf/server.py",
       """        self.state = TransactionState.FAILED

        self.terminate()

        return self.response(proto.MSG_TYPE_FAIL,
""",
       """        self.state = TransactionState.FAILED

        if self.is_single_response():
            self.terminate()

        return self.response(proto.MSG_TYPE_FAIL,
""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
a.send("services", ta=9, filter="(bad")
a.send("services", ta=9)
expect("replies", [m["msg-type"] for m in a.replies(9)],
       ["fail", "accept", "complete"])
expect("alive", a.alive(), True)
""")

seed("c15-zero-optional", "C15",
     "an optional field whose value is zero or empty",
     "the decoder takes an optional field with a false value for one that "
     "is absent",
     [("paf/proto.py",
       """                arg = field.pull(in_msg, opt=True)
                if arg is not None:
                    optargs""",
       """                arg = field.pull(in_msg, opt=True)
                if arg:
                    optargs""")],
     """
import net
import json
from paf import proto

m = proto.Message.parse(3, json.dumps({
    "ta-cmd": "services", "ta-id": 1, "msg-type": "request",
    "filter": ""}).encode("utf-8"))
net.expect("filter", m.optargs, {"filter": ""})
m = proto.Message.parse(3, json.dumps({
    "ta-cmd": "subscribe", "ta-id": 1, "msg-type": "notify",
    "match-type": "appeared", "service-id": 1, "generation": 0,
    "ttl": 0}).encode("utf-8"))
net.expect("notify", m.optargs, {"generation": 0, "ttl": 0})
""")

seed("c17-requeue-last", "C17",
     "a transport which refuses a message while more messages are queued "
     "than are sent in one batch",
     "the refused message is queued again behind the others, so replies "
     "arrive out of order",
     [("paf/server.py",
       """                self.out_wire_msgs.appendleft(out_wire_msg)
""",
       """                self.out_wire_msgs.append(out_wire_msg)
""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
a.window = 0
tas = [a.send("ping") for i in range(100)]
for i in range(100):
    a.window = 1
    net.run(0.1)
got = [m["ta-id"] for m in a.got if m["ta-cmd"] == "ping"]
expect("replies", got, tas)
""")

seed("c18-limit-not-raised", "C18",
     "a version 3 client whose service with the lowest TTL is taken away "
     "by somebody else, and which then is silent",
     "the idle limit of a connection is fixed by the lowest TTL it ever "
     "had, so the client is dropped too early",
     [("paf/sd.py",
       """    def remove_service(self, service):
        del self.services[service.service_id]

    def has_service(self, service_id):
        return service_id in self.services

    def get_services(self):
        return self.services.values()

    def get_lowest_ttl(self):
        return min([service.ttl() for service in self.services.values()])
""",
       """    def remove_service(self, service):
        del self.services[service.service_id]

    def has_service(self, service_id):
        return service_id in self.services

    def get_services(self):
        return self.services.values()

    def get_lowest_ttl(self):
        lowest = min([service.ttl() for service in self.services.values()])
        self.lowest_ttl = min(lowest, getattr(self, "lowest_ttl", lowest))
        return self.lowest_ttl
""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
a.publish(5, ttl=5)
a.publish(6, ttl=20)
a.ask("unpublish", service_id=5)
net.run(15)
expect("alive after 15 of 20 s", a.alive(), True)
net.run(7)
expect("alive after 22 of 20 s", a.alive(), False)
""")

seed("c19-resume-after-removal", "C19",
     "a total client limit that was reached, and a client that then leaves",
     "the check whether the limit was reached is made when the connection "
     "is no longer counted, so the server never accepts again",
     [("paf/server.py",
       """        if self.max_clients_reached():
            for source in self.server_socks.keys():
                source.update(xcm.SO_ACCEPTABLE)

        if conn.handshaked:
            del self.client_connections[conn.client_id]
        else:
            self.clientless_connections.remove(conn)
""",
       """        if conn.handshaked:
            del self.client_connections[conn.client_id]
        else:
            self.clientless_connections.remove(conn)

        if self.max_clients_reached():
            for source in self.server_socks.keys():
                source.update(xcm.SO_ACCEPTABLE)
""")],
     """
from net import Net, expect

net = Net(total={"clients": 1})
a = net.client(1)
b = net.join()
expect("second admitted", b.conn is not None, False)
a.leave()
net.run(1)
expect("second admitted once there is room", b.conn is not None, True)
""")

seed("c20-empty-piece", "C20",
     "a substring filter with two asterisks in a row",
     "empty intermediate pieces are accepted",
     [("paf/filter.py",
       """        if state.is_current(ANY):
            _check_value(state, value)
            intermediate.append(value)
            state.skip()
""",
       """        if state.is_current(ANY):
            intermediate.append(value)
            state.skip()
""")],
     """
import os
import sys
sys.path.insert(0, os.getcwd())
from paf import filter

for s in ("(a=b**c)", "(a=**)", "(&(a=b)(c=*d**))"):
    try:
        filter.parse(s)
    except filter.ParseError:
        continue
    sys.exit("FAILED: accepted %r" % s)
""")

seed("c22-piece-is-pattern", "C22",
     "a substring filter with an intermediate piece that contains a "
     "character special in regular expressions",
     "intermediate pieces are taken for regular expressions",
     [("paf/filter.py",
       """        for im in intermediate:
            pattern += "%s.*" % re.escape(im)
""",
       """        for im in intermediate:
            pattern += "%s.*" % im
""")],
     """
import os
import sys
sys.path.insert(0, os.getcwd())
from paf import filter

f = filter.parse("(a=x*1.2*)")
if f.match({"a": {"x132"}}):
    sys.exit("FAILED: 1.2 found in x132")
if not f.match({"a": {"x1.2"}}):
    sys.exit("FAILED: 1.2 not found in x1.2")
""")

seed("c23-collect-due", "C23",
     "two timers due in the same round, the handler of the first one "
     "cancelling the second",
     "all due timers are taken out before the first handler runs, so one "
     "of them cannot be cancelled any more",
     [("paf/timer.py",
       """        while len(self.deque) > 0:
            candidate = self.deque[0]

            if now < candidate.expiration_time:
                break

            self.deque.popleft()
            candidate.handler()

            changed = True
""",
       """        due = []

        while len(self.deque) > 0 and \\
                now >= self.deque[0].expiration_time:
            due.append(self.deque.popleft())

        for timer in due:
            if timer is not None:
                timer.handler()
            changed = True
""")],
     """
import os
import sys
import time
sys.path.insert(0, os.getcwd())
import paf.timer

m = paf.timer.TimerManager()
fired = []
now = time.time()


def first():
    fired.append(1)
    m.remove(second)


m.add(first, now - 2)
second = m.add(lambda: fired.append(2), now - 1)
m.add(lambda: fired.append(3), now + 1000)
m.process()
if fired != [1]:
    sys.exit("FAILED: fired %s" % fired)
""")

seed("c24-stale-round", "C24",
     "two sources ready in the same round, the handler of the first one "
     "removing the second",
     "the sources to be called are collected before the first handler "
     "runs, so the handler of a removed source is called",
     [("paf/eventloop.py",
       """        for fd, event in fds:
            if fd == self.s_rfd:
                self.check_signal()
            else:
                source = self.fd_source.get(fd)
                if source is None:
                    continue
                handler = self.source_handler[source]
                handler()
""",
       """        handlers = []
        for fd, event in fds:
            if fd == self.s_rfd:
                handlers.append(self.check_signal)
            else:
                source = self.fd_source.get(fd)
                if source is None:
                    continue
                handlers.append(self.source_handler[source])
        for handler in handlers:
            handler()
""")],
     """
import os
import select
import sys
sys.path.insert(0, os.getcwd())
from paf import eventloop

loop = eventloop.EventLoop()
called = []
sources = {}


def handler(name, other):
    called.append(name)
    if other in sources:
        loop.remove(sources[other])
        del sources[other]
    loop.stop()


pipes = {}
for name, other in (("a", "b"), ("b", "a")):
    pipes[name] = os.pipe()
    os.write(pipes[name][1], b"x")
    s = eventloop.Source()
    s.set_fd(pipes[name][0], select.EPOLLIN)
    sources[name] = s
    loop.add(s, lambda name=name, other=other: handler(name, other))
loop.run()
if len(called) != 1:
    sys.exit("FAILED: called %s" % called)
""")

seed("c25-log-file-size", "C25",
     "a configuration file that sets both a log file's maximum size and "
     "its number of backups",
     "with no backups configured before it, the maximum size is ignored",
     [("paf/conf.py",
       """    def set_log_file_max_size(self, log_file_max_size):
        self.log_file_max_size = log_file_max_size
""",
       """    def set_log_file_max_size(self, log_file_max_size):
        if self.log_file_backup > 0:
            self.log_file_max_size = log_file_max_size
""")],
     """
import os
import sys
import tempfile
sys.path.insert(0, os.getcwd())
import logging.handlers
import paf.conf

with tempfile.NamedTemporaryFile("w", suffix=".yaml") as f:
    f.write("log: {log_file: x, log_file_max_size: 5}")
    f.flush()
    conf = paf.conf.load(f.name)
if conf.log.log_file_max_size != 5:
    sys.exit("FAILED: %d" % conf.log.log_file_max_size)
""")

seed("c29-consumer-left", "C29",
     "clients of ever new users that come and go",
     "the account of a user which no longer has anything is kept",
     [("paf/sd.py",
       """        consumer = self.consumers[user_id]
        consumer.deallocate(resource_type)
        if not consumer.has_allocations():
            del self.consumers[user_id]
""",
       """        consumer = self.consumers[user_id]
        consumer.deallocate(resource_type)
""")],
     """
from net import Net, expect
import gc

net = Net()


def objects():
    gc.collect()
    return sum(1 for o in gc.get_objects()
               if type(o).__module__.startswith("paf."))


def session(i):
    a = net.client(i, addr="tcp:10.0.%d.1:5" % i)
    a.publish(5)
    a.ask("unpublish", service_id=5)
    a.leave()
    net.run(1)


for i in range(20):
    session(i)
before = objects()
for i in range(100, 200):
    session(i)
expect("growth", objects() - before < 50, True)
""")

seed("c30-shared-orphan-timers", "C30",
     "two domains which have services with the same identity, one an "
     "orphan in each domain",
     "the orphan timers of all domains are kept in one table",
     [("paf/sd.py",
       """class ServiceDiscovery:
    def __init__(self, name, timer_manager, max_user_resources,
                 max_total_resources):
""",
       """class ServiceDiscovery:
    orphan_timers = {}

    def __init__(self, name, timer_manager, max_user_resources,
                 max_total_resources):
"""),
      ("paf/sd.py",
       """        self.db = DB()
        self.orphan_timers = {}
""",
       """        self.db = DB()
""")],
     """
from net import Net, Loop, expect

loop = Loop()
one = Net(addr="ux:one", loop=loop)
two = Net(addr="ux:two", loop=loop)
for net in (one, two):
    a = net.client(1)
    a.publish(5, ttl=5)
    a.leave()
    loop.run(1)
b = one.client(2)
c = two.client(2)
expect("reclaim", b.publish(5, ttl=5, generation=2), "complete")
loop.run(4.5)
expect("in the first domain", len(b.listing()), 1)
expect("in the second domain", len(c.listing()), 0)
""")

seed("c32-terminate-iterates", "C32",
     "a termination signal while a client with a subscription and a client "
     "with a matching service are connected, the second's connection "
     "ending last",
     "connections are terminated while iterating over the live tables, "
     "which fails as soon as there is one client",
     [("paf/server.py",
       """        conns = [conn for conn in chain(self.clientless_connections,
                                        self.client_connections.values())]

        for conn in conns:
""",
       """        for conn in chain(self.clientless_connections,
                          self.client_connections.values()):
""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
b = net.client(2)
c = net.join()
net.server.terminate()
expect("alive", [a.alive(), b.alive(), c.alive()], [False] * 3)
expect("sources left", len(net.loop.sources) <= 1, True)
""")

seed("c34-latency-from-first", "C34",
     "a second server query on a connection whose client answered the "
     "first one",
     "the time of an answered query is kept, so an unsolicited reply is "
     "accepted",
     [("paf/server.py",
       """            self.track_latency = time.time() - self.track_query_ts
            self.track_query_ts = None
""",
       """            self.track_latency = time.time() - self.track_query_ts
""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
ta = a.send("track")
net.run(20)
expect("queries", [m["track-type"] for m in a.replies(ta)
                   if m["msg-type"] == "notify"], ["query"])
a.send("track", msg_type="inform", ta=ta, track_type="reply")
expect("alive", a.alive(), True)
a.send("track", msg_type="inform", ta=ta, track_type="reply")
expect("alive after an unsolicited reply", a.alive(), False)
""")

seed("c05-access-on-owner-only", "C05",
     "an orphan of one user and an unpublish request by another user",
     "a service without a connected owner is open to everybody",
     [("paf/sd.py",
       """    def check_access(self, user_id):
        if user_id != self.user_id():
""",
       """    def check_access(self, user_id):
        if user_id != self.user_id() and not self.is_orphan():
""")],
     """
from net import Net, expect

net = Net()
a = net.client(1, addr="tcp:10.0.0.1:5")
b = net.client(2, addr="tcp:10.0.0.2:5")
a.publish(5, ttl=20)
expect("alien", b.ask("unpublish", service_id=5), "permission-denied")
a.leave()
expect("alien, orphan", b.ask("unpublish", service_id=5),
       "permission-denied")
expect("services", len(b.listing()), 1)
""")

seed("c08-reclaim-keeps-orphan", "C08",
     "an orphan that is republished with a newer generation by its owner "
     "on a new connection",
     "the service stays an orphan and is removed under its owner",
     [("paf/sd.py",
       """                    change.ttl = ttl
                    change.orphan_since = None
                    change.client_id = self.client_id
                    change.user_id = self.user_id
            else:
""",
       """                    change.ttl = ttl
                    if change.client_id != self.client_id:
                        change.orphan_since = None
                    change.client_id = self.client_id
                    change.user_id = self.user_id
            else:
""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
a.publish(5, ttl=5)
a.leave()
a = net.client(1, lo=2, hi=2)
expect("republish", a.publish(5, generation=2, ttl=5), "complete")
net.run(8)
expect("services", len(a.listing()), 1)
""")

seed("c03-idle-of-other", "C03",
     "a client that has been silent, and a version 3 client asking",
     "the idle time listed is that of the connection's age, not the "
     "silence",
     [("paf/server.py",
       """            idle_time = now - self.sd.client_last_seen(conn.client_id)
""",
       """            idle_time = now - max(self.sd.client_last_seen(conn.client_id),
                                  conn.connect_time + 1)
""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
b = net.client(2)
a.ask("ping")
l = dict((m["client-id"], m["idle"]) for m in b.listing("clients"))
expect("idle", l[1] >= 0, True)
""")

seed("c02-hide-expiring", "C02",
     "an orphan whose TTL runs out within the same second as the listing, "
     "and an owner that disconnected between two whole seconds",
     "the listing leaves out orphans up to a second before they expire",
     [("paf/server.py",
       """            for service in self.sd.get_services():
                if filter is None or filter.match(service.props()):
""",
       """            now = time.time()
            for service in self.sd.get_services():
                if service.is_orphan() and \\
                   int(service.orphan_timeout()) <= now:
                    # about to be purged
                    continue
                if filter is None or filter.match(service.props()):
""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
b = net.client(2)
a.publish(5, ttl=3)
net.run(0.75)
a.leave()
net.run(2.5)
expect("listed", [m["service-id"] for m in b.listing()], [5])
""")

seed("c04-text-comparison", "C04",
     "a republication of the same generation which changes an integer "
     "property to the string of the same digits, or the other way around",
     "the republication is taken for identical and succeeds",
     [("paf/sd.py",
       """                if service_props != service.props() or ttl != service.ttl():
""",
       """                if not same_props(service_props, service.props()) or \\
                   ttl != service.ttl():
"""),
      ("paf/sd.py",
       """class Client:
    def __init__(self, client_id, user_id, db, resource_manager,
""",
       """def same_props(a, b):
    return {(key, str(value)) for key in a for value in a[key]} == \\
        {(key, str(value)) for key in b for value in b[key]}


class Client:
    def __init__(self, client_id, user_id, db, resource_manager,
""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
expect("publish", a.publish(5, x=["17"]), "complete")
expect("again", a.publish(5, x=["17"]), "complete")
expect("changed", a.publish(5, x=[17]), "same-generation-but-different")
expect("listed", a.listing()[0]["service-props"], {"x": ["17"]})
""")

seed("c06-owner-with-content", "C06",
     "a newer generation with the same properties and TTL, published by "
     "another client of the same user",
     "the new owner is not recorded; after it disconnects the service is "
     "listed as an orphan of the old one",
     [("paf/sd.py",
       """                    change.generation = generation
                    change.props = service_props
                    change.ttl = ttl
                    change.orphan_since = None
                    change.client_id = self.client_id
                    change.user_id = self.user_id
            else:
""",
       """                    change.generation = generation
                    change.orphan_since = None
                    if service_props != service.props() or \\
                       ttl != service.ttl():
                        change.props = service_props
                        change.ttl = ttl
                        change.client_id = self.client_id
                        change.user_id = self.user_id
            else:
""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
b = net.client(2)
expect("publish", a.publish(5, 1, 9, x=["y"]), "complete")
expect("take over", b.publish(5, 2, 9, x=["y"]), "complete")
expect("owner", [(m["generation"], m["client-id"]) for m in a.listing()],
       [(2, 2)])
""")

seed("c06-orphan-unpublish-silent", "C06",
     "a subscriber, and an orphan unpublished by another client than the "
     "one that left it behind",
     "the subscriber never sees the ownership change before the "
     "disappearance",
     [("paf/sd.py",
       """                self.capture_service(service)
            with service.modify() as change:
                change.orphan_since = None
                change.client_id = self.client_id

        self.remove_service(service)
""",
       """                self.capture_service(service)
            if not service.is_orphan():
                with service.modify() as change:
                    change.client_id = self.client_id

        self.remove_service(service)
""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
b = net.client(2)
c = net.client(3)
a.publish(5)
ta = c.send("subscribe", subscription_id=7)
a.leave()
expect("unpublish", b.ask("unpublish", service_id=5), "complete")
expect("notifications",
       [(m["match-type"], m.get("client-id"), "orphan-since" in m)
        for m in c.replies(ta) if m["msg-type"] == "notify"],
       [("appeared", 1, False), ("modified", 1, True),
        ("modified", 2, False), ("disappeared", None, False)])
""")

seed("c10-hello-renegotiates", "C10",
     "a second hello on an established connection with another version "
     "range",
     "the repeated hello changes the version of the running session",
     [("paf/server.py",
       """            yield ta.complete(self.proto_version)
            return
        if min_version""",
       """            version = self.proto_version_limit.get_highest_allowed(
                min_version, max_version)
            if version is not None:
                self.proto_version = version
            yield ta.complete(self.proto_version)
            return
        if min_version""")],
     """
from net import Net, expect

net = Net()
a = net.client(1, lo=2, hi=3)
ta = a.send("hello", client_id=1, protocol_minimum_version=2,
            protocol_maximum_version=2)
expect("version", [m.get("protocol-version") for m in a.replies(ta)], [3])
expect("format", ["idle" in m for m in a.listing("clients")], [True])
""")

seed("c11-range-one-sided", "C11",
     "a domain whose lowest version is above everything the client offers",
     "the handshake succeeds with a version the domain does not allow",
     [("paf/conf.py",
       """        min_version = max(client_version_min, self.version_min)

        if min_version <= max_version:
""",
       """
        if max_version >= client_version_min:
""")],
     """
from net import Net, expect

net = Net(versions=(3, 3))
a = net.join()
expect("hello", a.hello(1, 2, 2), "unsupported-protocol-version")
""")

seed("c03-lister-version", "C03",
     "a version 2 and a version 3 client at the same time, one of them "
     "listing the clients",
     "records have the format of the listed connection's version instead "
     "of the listing one's",
     [("paf/server.py",
       """        extended = self.proto_version >= 3

        for conn in self.server.client_connections.values():
            idle_time""",
       """        for conn in self.server.client_connections.values():
            extended = min(conn.proto_version,
                           ta.proto_version or proto.MAX_VERSION) >= 3
            if self.proto_version >= 3 and not extended:
                # nothing is known about the idle time of such clients
                continue
            idle_time""")],
     """
from net import Net, expect

net = Net()
a = net.client(1, lo=2, hi=2)
b = net.client(2, lo=3, hi=3)
expect("listed to version 3",
       sorted(m["client-id"] for m in b.listing("clients")), [1, 2])
expect("listed to version 2",
       sorted(m["client-id"] for m in a.listing("clients")), [1, 2])
""")

seed("c13-log-decoded", "C13",
     "a message that is not valid UTF-8",
     "the message ends the server process instead of its sender's "
     "connection",
     [("paf/server.py",
       """            self.debug("Received message: %s" % in_wire_msg,
                       LogCategory.PROTOCOL)
""",
       """            self.debug("Received message: %s" % in_wire_msg.decode('utf-8'),
                       LogCategory.PROTOCOL)
""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
b = net.client(2)
a.inbox.append(b"{\\"ta-cmd\\": \\"ping\\", \\"ta-id\\": 7, \\xff}")
net.loop.settle()
expect("sender", a.alive(), False)
expect("other client", b.ask("ping"), "complete")
""")

seed("c14-sub-ta-overwritten", "C14",
     "a client re-using the identity of its own subscription, and a "
     "matching publication afterwards",
     "the notifications of the subscription are sent in the failed "
     "transaction",
     [("paf/server.py",
       """            self.sd.create_subscription(self.client_id, sub_id, filter,
                                        self.subscription_triggered)
            self.sub_tas[sub_id] = ta
""",
       """            self.sub_tas[sub_id] = ta
            self.sd.create_subscription(self.client_id, sub_id, filter,
                                        self.subscription_triggered)
""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
b = net.client(2)
ta = a.send("subscribe", subscription_id=7)
other = a.send("subscribe", subscription_id=7)
b.publish(5)
expect("subscription", [m["msg-type"] for m in a.replies(ta)],
       ["accept", "notify"])
expect("refused one", [m["msg-type"] for m in a.replies(other)], ["fail"])
""")

seed("c16-number-resolution", "C16",
     "a number (idle time, latency, orphan time) with more than three "
     "decimals",
     "encoding rounds numbers to milliseconds",
     [("paf/proto.py",
       """class NonNegativeNumberField(Field):
    def pull""",
       """class NonNegativeNumberField(Field):
    def put(self, value, out_msg):
        Field.put(self, round(value, 3), out_msg)

    def pull""")],
     """
import os
import sys

sys.path.insert(0, os.getcwd())
import paf.proto as proto

for value in (0, 3, 2.5, 1 / 1024):
    m = proto.Message(proto.TA_CLIENTSv3, 7, "notify",
                      [1, "ux:a", 5, value, 3], {"latency": value})
    got = proto.Message.parse(3, m.to_wire())
    if got.args[3] != value or got.optargs != {"latency": value}:
        print("FAILED: %r became %r %r" % (value, got.args, got.optargs))
        sys.exit(1)
print("ok")
""")

seed("c21-piece-unescaped", "C21",
     "a substring filter whose intermediate piece contains a special "
     "character",
     "the printed filter means something else or cannot be parsed",
     [("paf/filter.py",
       """            s += "%s%s" % (escape(im), ANY)
""",
       """            s += im + ANY
""")],
     """
import os
import sys

sys.path.insert(0, os.getcwd())
import paf.filter as f

a = f.parse("(k=a*\\\\*b*c)")
b = f.parse(str(a))
for text in ("a*bc", "abc", "axxbc"):
    props = {"k": {text}}
    if a.match(props) != b.match(props):
        print("FAILED: %s became %s" % (a, b))
        sys.exit(1)
print("ok")
""")

seed("c26-m-adds", "C26",
     "a configuration file with domains together with domains given by -m "
     "only",
     "the domains of the file stay in use beside those of the command line",
     [("paf/daemon.py",
       """    if len(domains) > 0:
        conf.set_domains(domains)

    if len(conf.domains) == 0:
""",
       """    for domain in domains[len(args):]:
        domain_conf = conf.add_domain()
        for addr in domain:
            domain_conf.add_socket(addr)

    if len(conf.domains) == 0:
""")],
     """
import os
import sys
import tempfile
from net import Net, expect
import paf.logging
import paf.daemon

def domains(argv):
    got = []

    def run(conf, hook=None):
        got.append([[s.addr for s in d.sockets] for d in conf.domains])

    paf.daemon.run = run
    paf.logging.configure = lambda *args: None
    paf.daemon.main(["pafd"] + argv)
    return got[0]

with tempfile.TemporaryDirectory() as d:
    name = os.path.join(d, "conf")
    with open(name, "w") as f:
        f.write("domains:\\n  - sockets:\\n    - ux:file\\n")
    expect("file", domains(["-f", name]), [["ux:file"]])
    expect("positional", domains(["-f", name, "ux:a"]), [["ux:a"]])
    expect("both", domains(["-m", "ux:a+ux:b", "ux:c"]),
           [["ux:c"], ["ux:a", "ux:b"]])
    expect("-m", domains(["-f", name, "-m", "ux:a+ux:b"]),
           [["ux:a", "ux:b"]])
""")

seed("c27-fail-not-final", "C27",
     "a failed transaction in whose name another message arrives",
     "the callback runs again after the final message",
     [("paf/client.py",
       """            if transaction.state == TransactionState.TERMINATED:
                del self.transactions[in_msg.ta_id]
""",
       """            if in_msg.is_complete():
                del self.transactions[in_msg.ta_id]
""")],
     """
from peer import install, usual, reply, expect

client = install()
conn = client.connect("ux:x", client_id=5)
events = []
ta = conn.publish(1, 1, {}, 1,
                  response_cb=lambda *args, **optargs: events.append(args))
conn.process()
expect("completed", [e[1].name for e in events], ["COMPLETE"])

import peer
peer.conns[0].answer = lambda c, m: [
    reply(m, "fail", fail_reason="no"), reply(m, "fail", fail_reason="no")]
del events[:]
conn.publish(1, 1, {}, 1,
             response_cb=lambda *args, **optargs: events.append(args))
try:
    conn.process()
    expect("protocol error", False, True)
except client.ProtocolError:
    pass
expect("failed once", [e[1].name for e in events], ["FAIL"])
""")

seed("c28-shared-notifications", "C28",
     "two listings of the same kind",
     "the second listing also returns what the first one did",
     [("paf/client.py",
       """class NotifyCall(Call):
    def __init__(self, conn):
        Call.__init__(self, conn)
        self.notifications = []
""",
       """class NotifyCall(Call):
    notifications = []
""")],
     """
from peer import install, usual, reply, expect


def answer(conn, msg):
    if msg["ta-cmd"] == "subscriptions":
        return [reply(msg, "accept"),
                reply(msg, "notify", subscription_id=msg["ta-id"],
                      client_id=9),
                reply(msg, "complete")]
    return usual(conn, msg)


client = install(answer)
conn = client.connect("ux:x", client_id=5)
first = conn.subscriptions()
expect("first", [n[0] for n in first], [1])
expect("second", [n[0] for n in conn.subscriptions()], [2])
""")

seed("c28-again-last", "C28",
     "a transport that refuses a message while others are waiting",
     "the refused request is sent after the ones issued later",
     [("paf/client.py",
       """                self.out_wire_msgs.appendleft(out_wire_msg)
""",
       """                self.out_wire_msgs.append(out_wire_msg)
""")],
     """
import peer
from peer import install, expect

client = install()
conn = client.connect("ux:x", client_id=5)
sock = peer.conns[0]
del sock.sent[:]
sock.refuse = 3
for service_id in (1, 2, 3):
    conn.publish(service_id, 1, {}, 1, response_cb=lambda *a, **o: None)
conn.process()
conn.process()
expect("order", [m["service-id"] for m in sock.sent], [1, 2, 3])
""")

seed("c31-shared-attrs", "C31",
     "a JSON domain file with several servers of which a later one lacks "
     "some of the TLS files",
     "servers inherit the TLS files of those before them",
     [("paf/client.py",
       """    servers = []
    for server_obj in root['servers']:
        server = ServerConf(server_obj['address'])
        for json_name""",
       """    servers = []
    attrs = {}
    for server_obj in root['servers']:
        server = ServerConf(server_obj['address'])
        server.attrs = attrs
        for json_name""")],
     """
import json
import os
import tempfile
from peer import install, expect

client = install()
with tempfile.TemporaryDirectory() as d:
    os.environ["PAF_DOMAINS"] = d
    with open(os.path.join(d, "x"), "w") as f:
        json.dump({"servers": [{"address": "tls:a",
                                "tlsKeyFile": "k"},
                               {"address": "ux:b"}]}, f)
    expect("servers", [(s.addr, s.attrs) for s in client.read_domain("x")],
           [("tls:a", {"tls.key_file": "k"}), ("ux:b", {})])
""")

seed("c31-comment-unstripped", "C31",
     "a comment line that starts with white space",
     "the comment is taken for a server",
     [("paf/client.py",
       """        if len(addr) == 0 or addr[0] == '#':
""",
       """        if len(addr) == 0 or line.startswith('#'):
""")],
     """
import os
import tempfile
from peer import install, expect

client = install()
with tempfile.TemporaryDirectory() as d:
    os.environ["PAF_DOMAINS"] = d
    with open(os.path.join(d, "x"), "w") as f:
        f.write("# first\\n  # second\\n ux:b \\n\\n")
    expect("servers", [s.addr for s in client.read_domain("x")], ["ux:b"])
""")

seed("c33-binary-as-text", "C33",
     "a binary attribute that contains a zero byte (as a key identifier "
     "may)",
     "the attribute's value is cut off",
     [("paf/xcm.py",
       """        return bytes(attr_value.raw)[:attr_len]
""",
       """        return bytes(attr_value.value)[:attr_len]
""")],
     """
import ctypes
from libxcm import binding, results, expect

s = binding.ConnectionSocket(77)


def get(sock, name, kind, buf, capacity):
    kind._obj.value = 4
    ctypes.memmove(buf, b"a\\0bcd", 5)
    return 5


results["xcm_attr_get"] = get
expect("value", s.get_attr("tls.peer_subject_key_id"), b"a\\0bcd")
""")

seed("c33-bool-is-int", "C33",
     "a Boolean attribute set on an open socket",
     "the value is handed over as an integer",
     [("paf/xcm.py",
       """        if isinstance(attr_value, bool):
            set_fun = xcm_attr_set_bool_c
        elif isinstance(attr_value, int):
            set_fun = xcm_attr_set_int64_c
        elif isinstance""",
       """        if isinstance(attr_value, int):
            set_fun = xcm_attr_set_int64_c
        elif isinstance(attr_value, bool):
            set_fun = xcm_attr_set_bool_c
        elif isinstance""")],
     """
from libxcm import binding, calls, expect

s = binding.ConnectionSocket(77)
s.set_attr("tcp.keepalive", False)
s.set_attr("tcp.keepalive_time", 3)
expect("calls", [c[0] for c in calls if "attr_set" in c[0]],
       ["xcm_attr_set_bool", "xcm_attr_set_int64"])
""")

seed("c35-orphan-of-previous-row", "C35",
     "a listing in which a service with an owner follows an orphan",
     "the service is shown with the orphan time of the one before it",
     [("app/pafc",
       """            for service in services:
                service_id = service[0]
""",
       """            orphan_since = None
            for service in services:
                service_id = service[0]
"""),
      ("app/pafc",
       """                service_owner = service[4]
                orphan_since = None
                if len(service) >= 6:
""",
       """                service_owner = service[4]
                if len(service) >= 6:
""")],
     """
import json
from shell import pafc

rows = {"services": [
    ["accept", {}],
    ["notify", {"service-id": 1, "generation": 1, "ttl": 7,
                "service-props": {}, "client-id": 3, "orphan-since": 5}],
    ["notify", {"service-id": 2, "generation": 1, "ttl": 7,
                "service-props": {}, "client-id": 4}],
    ["complete", {}]]}
rc, out, _, _ = pafc(["ux:x"], ["services", "quit"],
                     extra=json.dumps(rows))
lines = [line.split() for line in out.split("\\n") if "{}" in line]
print(lines)
assert len(lines) == 2, out
assert lines[0][3] != "-"
assert lines[1][3] == "-"
""")

seed("c35-number-with-spaces", "C35",
     "a quoted value made up of a number with white space around it",
     "the value is published as an integer, without the spaces",
     [("app/pafc",
       """        elif value.strip() == value:
            try:
                value = int(value)
            except ValueError:
                pass
        service_props""",
       """        else:
            try:
                value = int(value)
            except ValueError:
                pass
        service_props""")],
     """
from shell import pafc

rc, out, _, sent = pafc(
    ["ux:x"], ["publish 1 1 1 k ' 17' k 5 k x k |5|", "quit"])
sent = [m for m in sent if m["ta-cmd"] == "publish"]
print(sent)
assert len(sent) == 1
assert set(sent[0]["service-props"]["k"]) == {" 17", 5, "x", "5"}
""")

seed("c38-index-zero", "C38",
     "-n 0 with an argument that is no domain",
     "the index is ignored and the argument taken for an address",
     [("app/pafc",
       """            if server_num is not None:
                print("Domain""",
       """            if server_num:
                print("Domain""")],
     """
import tempfile
from shell import pafc

with tempfile.TemporaryDirectory() as d:
    rc, out, addrs, _ = pafc(["-n", "0", "ux:x"], ["quit"],
                             env={"PAF_DOMAINS": d})
    print(rc, out, addrs)
    assert addrs == [] and rc == 1 and out
    rc, out, addrs, _ = pafc(["ux:x"], ["quit"], env={"PAF_DOMAINS": d})
    assert addrs == ["ux:x"], out
""")

seed("c38-version-upper-only", "C38",
     "-p with a version that is not the lowest the server is configured "
     "with",
     "the lower versions are offered as well",
     [("paf/client.py",
       """    def set_proto_version(self, proto_version):
        self.proto_version_min = proto_version
        self.proto_version_max""",
       """    def set_proto_version(self, proto_version):
        self.proto_version_max""")],
     """
from shell import pafc

rc, out, addrs, sent = pafc(["-p", "3", "ux:x"], ["quit"])
print(sent)
assert [(m["protocol-minimum-version"], m["protocol-maximum-version"])
        for m in sent if m["ta-cmd"] == "hello"] == [(3, 3)]
""")

seed("c01-filter-memo", "C01",
     "a service that is withdrawn and published again under the same id and "
     "generation, with properties that match otherwise than before",
     "the subscription remembers the outcome of the match per service id "
     "and generation, and so reports the new service by the old properties",
     [("paf/sd.py",
       """        self.match_cb = match_cb

    def notify(""",
       """        self.match_cb = match_cb
        self.seen = {}

    def notify("""),
      ("paf/sd.py",
       """            if self.matches(service.props()):
                self.match_cb(self.sub_id, MatchType.APPEARED, service)
        elif""",
       """            if self.recall(service):
                self.match_cb(self.sub_id, MatchType.APPEARED, service)
        elif"""),
      ("paf/sd.py",
       """    def matches(self, props):
        if self.filter""",
       """    def recall(self, service):
        key = (service.service_id, service.generation())
        if key not in self.seen:
            self.seen[key] = self.matches(service.props())
        return self.seen[key]

    def matches(self, props):
        if self.filter""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
b = net.client(2)
ta = b.send("subscribe", subscription_id=7, filter="(x=y)")
a.publish(5, generation=1, ttl=5, x=["n"])
a.ask("unpublish", service_id=5)
a.publish(5, generation=1, ttl=5, x=["y"])
got = [(m["match-type"], m.get("generation"), m.get("ttl"))
       for m in b.replies(ta) if m["msg-type"] == "notify"]
expect("notifications", got, [("appeared", 1, 5)])
""")

seed("c05-subscription-user", "C05",
     "two clients of the same user, one cancelling the other's subscription",
     "access to a subscription is granted by user instead of by client",
     [("paf/sd.py",
       """        subscription.check_access(self.client_id)

        self.remove_subscription(subscription)
""",
       """        owner = self.db.get_client(subscription.client_id)
        if owner.user_id != self.user_id:
            subscription.check_access(self.client_id)

        owner.remove_subscription(subscription)
""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
b = net.client(2)
ta = a.send("subscribe", subscription_id=7)
expect("unsubscribe", b.ask("unsubscribe", subscription_id=7),
       "permission-denied")
expect("subscription", len(a.listing("subscriptions")), 1)
""")

seed("c07-ceil", "C07",
     "a client which disconnects between two whole seconds",
     "the expiry time of an orphan is rounded up to a whole second, so it "
     "outlives its TTL",
     [("paf/sd.py", "import enum\nimport random\n",
       "import enum\nimport math\nimport random\n"),
      ("paf/sd.py",
       """        timer = self.timer_manager.add(handler, service.orphan_timeout())
""",
       """        timer = self.timer_manager.add(handler,
                                       math.ceil(service.orphan_timeout()))
""")],
     """
import net as n
from net import Net, expect

n.Clock.now = 1000.125
net = Net()
a = net.client(1)
b = net.client(2)
a.publish(5, generation=1, ttl=5, x=["y"])
a.leave()
net.run(4.5)
expect("before", len(b.listing()), 1)
net.run(0.75)
expect("after", len(b.listing()), 0)
""")

seed("c08-lazy-cancel", "C08",
     "a service that is orphaned, reclaimed and orphaned again before the "
     "expiry time of the first time",
     "a timer is left running as the service is reclaimed, and purges the "
     "service too early",
     [("paf/sd.py",
       """            if was_orphan and not is_orphan:
                self.remove_orphan_timer(service)
            elif not was_orphan""",
       """            if was_orphan and not is_orphan:
                # a service which is no orphan is left alone
                # as the timer fires
                self.orphan_timers.pop(service.service_id)
            elif not was_orphan"""),
      ("paf/sd.py",
       """        def handler():
            self.orphan_timeout(service_id)
""",
       """        def handler():
            service = self.db.get_service(service_id)
            if service is not None and service.is_orphan():
                self.orphan_timeout(service_id)
"""),
      ],
     """
from net import Net, expect

net = Net(idle=(30, 60))
b = net.client(2)
a = net.client(1)
a.publish(5, generation=1, ttl=8, x=["y"])
a.leave()
net.run(5)
a = net.client(1)
a.publish(5, generation=1, ttl=8, x=["y"])
net.run(1)
a.leave()
net.run(5)
expect("still there", len(b.listing()), 1)
""")

seed("c09-zero-limit", "C09",
     "a limit of zero",
     "a limit of zero is taken for no limit",
     [("paf/sd.py",
       """        if limit is not None and limit == self.total(resource_type):
""",
       """        if limit and limit == self.total(resource_type):
""")],
     """
from net import Net, expect

net = Net(total={"services": 0, "subscriptions": 1})
a = net.client(1)
expect("publish", a.publish(5), "insufficient-resources")
""")

seed("c09-takeover-charges", "C09",
     "a service that another client of the same user takes over with a newer "
     "generation, at a limit per user",
     "the taking client is charged once more, and refused at the limit",
     [("paf/sd.py",
       """            if generation == service.generation():
                if service_props != service.props() or""",
       """            if service.client_id() != self.client_id and \\
               generation > service.generation():
                self.resource_manager.allocate(self.user_id,
                                               ResourceType.SERVICE)
                self.resource_manager.deallocate(service.user_id(),
                                                 ResourceType.SERVICE)

            if generation == service.generation():
                if service_props != service.props() or""")],
     """
from net import Net, expect

net = Net(user={"services": 1})
a = net.client(1)
b = net.client(2)
expect("publish", a.publish(5), "complete")
expect("take over", b.publish(5, generation=2), "complete")
expect("another", b.publish(6, generation=2), "insufficient-resources")
""")

seed("c12-order", "C12",
     "an identity in use, claimed by another user",
     "the user is checked before it is checked that the identity is in use",
     [("paf/sd.py",
       """        if self.is_connected():
            # The active connection may be down but this has not yet
            # noticed by the server.
            self.check_idle()

            raise AlreadyExistsError("client", self.client_id)
        elif self.user_id != user_id:
            raise UserIdChanged(self.client_id, user_id, self.user_id)
""",
       """        if self.user_id != user_id:
            raise UserIdChanged(self.client_id, user_id, self.user_id)
        if self.is_connected():
            # The active connection may be down but this has not yet
            # noticed by the server.
            self.check_idle()

            raise AlreadyExistsError("client", self.client_id)
""")],
     """
from net import Net, expect

net = Net()
a = net.client(1, "tcp:10.0.0.1:4711")
b = net.join("tcp:10.0.0.2:4711")
expect("hello", b.hello(1), "client-id-exists")
""")

seed("c13-errno-class", "C13",
     "a connection that breaks with an error which is no ConnectionError, "
     "for example because the peer stopped responding (ETIMEDOUT)",
     "the error is not handled and takes the server down",
     [("paf/server.py",
       """        except xcm.error as e:
            if e.errno == 0:
                self.debug("Connection is closed.\"""",
       """        except (ConnectionError, xcm.error) as e:
            if not isinstance(e, ConnectionError) and \\
               e.errno not in (0, errno.ECONNRESET, errno.EPIPE,
                               errno.EPROTO, errno.EAGAIN):
                raise
            if e.errno == 0:
                self.debug("Connection is closed.\"""")],
     """
import errno
from net import Net, expect

net = Net()
a = net.client(1)
b = net.client(2)


def receive():
    raise OSError(errno.ETIMEDOUT, "timed out")


a.conn.receive = receive
a.inbox.append(b"")
net.loop.settle()
expect("gone", a.alive(), False)
expect("the other", b.ask("ping"), "complete")
""")

seed("c15-hello-extra", "C15",
     "a hello with a field that is not specified",
     "the field is ignored",
     [("paf/proto.py",
       """            if len(in_msg) > 0:
                raise""",
       """            if len(in_msg) > 0 and cmd != CMD_HELLO:
                raise""")],
     """
from net import Net, expect

net = Net()
a = net.join()
a.send("hello", client_id=1, protocol_minimum_version=2,
       protocol_maximum_version=3, extra=1)
expect("connection", a.alive(), False)
""")

seed("c16-falsy", "C16",
     "an optional field whose value is 0 or the empty string",
     "the field is left out",
     [("paf/proto.py",
       """                if opt_value is not None:
                    opt_field.put""",
       """                if opt_value:
                    opt_field.put""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
b = net.client(2)
ta = b.send("subscribe", subscription_id=7)
a.publish(5, generation=0, ttl=0, x=["y"])
got = [(m["match-type"], m.get("generation"), m.get("ttl"))
       for m in b.replies(ta) if m["msg-type"] == "notify"]
expect("notifications", got, [("appeared", 0, 0)])
""")

seed("c17-maxlen", "C17",
     "more than four times the soft limit of replies queued to one client",
     "the queue of a connection is bounded, and drops the oldest messages",
     [("paf/server.py",
       """        self.out_wire_msgs = deque()
        self.event_loop""",
       """        self.out_wire_msgs = deque(maxlen=4 * SOFT_OUT_WIRE_LIMIT)
        self.event_loop""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
for i in range(600):
    a.publish(i)
b = net.client(2)
b.window = 0
ta = b.send("services")
b.window = None
net.loop.settle()
expect("replies", len(b.replies(ta)), 602)
""")

seed("c18-first-ttl", "C18",
     "a client that publishes a service with a shorter TTL than its first",
     "the idle limit is made from the service that was published first",
     [("paf/sd.py",
       """                return self.idle_limit.limit(self.get_lowest_ttl())
""",
       """                ttl = next(iter(self.services.values())).ttl()
                return self.idle_limit.limit(ttl)
""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
a.publish(5, ttl=25)
a.publish(6, ttl=6)
net.run(10)
expect("alive", a.alive(), False)
""")

seed("c19-clean-once", "C19",
     "a second half-open connection that is made while the first one waits "
     "to be evicted, but is not yet due at that time",
     "only connections made before the timer was set are ever evicted",
     [("paf/server.py",
       """        self.clean_out_timer = None
        self.clean_out_connections()
        self.schedule_clean_out()
""",
       """        self.clean_out_timer = None
        before = len(self.clientless_connections)
        self.clean_out_connections()
        if len(self.clientless_connections) == before:
            self.schedule_clean_out()
""")],
     """
from net import Net, expect

net = Net()
a = net.join()
net.run(1.5)
b = net.join()
net.run(8)
expect("first", a.alive(), False)
expect("second", b.alive(), False)
""")

seed("c22-overlap", "C22",
     "a substring filter whose first and last piece overlap in the value",
     "the first and the last piece are matched independently",
     [("paf/filter.py",
       """        self.substring_re = re.compile(pattern""",
       """        if len(intermediate) == 0:
            # about twice as fast as the general case
            pattern = "(?=%s)" % re.escape(initial or "")
            if final is not None:
                pattern += ".*(?<=%s)\\Z" % re.escape(final)
            pattern = "^" + pattern

        self.substring_re = re.compile(pattern""")],
     """
import os
import sys
sys.path.insert(0, os.getcwd())
import paf.filter as f

assert f.parse("(k=ab*bc)").match({"k": {"abbc"}})
assert not f.parse("(k=ab*bc)").match({"k": {"abc"}})
""")

seed("c23-remove-by-time", "C23",
     "two or more timers with the same expiry time, one of which is removed",
     "a timer is looked up by its expiry time, and the wrong one of those "
     "with the same time is removed",
     [("paf/timer.py",
       """        else:
            self.deque.remove(timer)
""",
       """        else:
            idx = self._allocate_idx(timer.expiration_time)
            if self.deque[idx].expiration_time != timer.expiration_time:
                raise ValueError("no such timer")
            del self.deque[idx]
""")],
     """
import os
import sys
import time
sys.path.insert(0, os.getcwd())
import paf.timer

time.time = lambda: 1000.0
fired = []
m = paf.timer.TimerManager()
timers = [m.add(lambda i=i: fired.append(i), 1001.0) for i in range(4)]
m.remove(timers[0])
time.time = lambda: 1002.0
m.process()
assert sorted(fired) == [1, 2, 3], fired
""")

seed("c24-mask", "C24",
     "a source whose fd stays while the events of interest change",
     "the event loop keeps waiting for the old events",
     [("paf/eventloop.py",
       """        if self.fd != fd or self.mask != mask:
            self.fd = fd
            self.mask = mask
            self.dispatch_changed_fd()
""",
       """        changed = self.fd != fd
        self.fd = fd
        self.mask = mask
        if changed:
            self.dispatch_changed_fd()
""")],
     """
import os
import select
import socket
import sys
sys.path.insert(0, os.getcwd())
import paf.eventloop as e

loop = e.EventLoop()
a, b = socket.socketpair()
s = e.Source()
called = []


def handler():
    called.append(1)
    loop.stop()


t = e.Source()
loop.add(s, handler)
loop.add(t, loop.stop)
s.set_fd(a.fileno(), select.EPOLLIN)
s.set_fd(a.fileno(), select.EPOLLIN | select.EPOLLOUT)
import time
t.set_timeout(time.time() + 0.5)
loop.run()
assert called == [1]
""")

seed("c25-lenient-idle", "C25",
     "an idle time maximum below the default minimum, with no minimum given",
     "the minimum is silently lowered instead of the file being rejected",
     [("paf/conf.py",
       """            if "max_idle_time" in domain and "max" in idle:
                raise DuplicateFieldError(domain_path, "max_idle_time")
""",
       """            if "max_idle_time" in domain and "max" in idle:
                raise DuplicateFieldError(domain_path, "max_idle_time")

            if "max" in idle:
                idle_min = min(idle_min, idle["max"])
""")],
     """
import os
import sys
import tempfile
import types
sys.path.insert(0, os.getcwd())
sys.modules["paf.xcm"] = types.ModuleType("paf.xcm")
import logging.handlers
import paf.logging
import paf.conf

text = "domains: [ { sockets: [ { addr: 'ux:x' } ], idle: %s } ]"


def load(idle):
    with tempfile.NamedTemporaryFile("w") as f:
        f.write(text % idle)
        f.flush()
        try:
            return paf.conf.load(f.name)
        except paf.conf.Error as e:
            return None


assert load("{ max: 5 }") is not None
assert load("{ min: 2, max: 3 }") is not None
assert load("{ min: 5, max: 3 }") is None
assert load("{ max: 3 }") is None
""")

seed("c26-u-enables", "C26",
     "-n followed by -u",
     "the socket option turns logging to syslog on again",
     [("paf/conf.py",
       """        self.syslog_socket = syslog_socket

    def set_filter""",
       """        self.syslog_socket = syslog_socket
        self.syslog = True

    def set_filter""")],
     """
import os
import sys
import types
sys.path.insert(0, os.getcwd())
sys.modules["paf.xcm"] = types.ModuleType("paf.xcm")
import paf
paf.xcm = sys.modules["paf.xcm"]
import logging.handlers
import paf.logging
import paf.daemon

got = []
paf.daemon.run = lambda conf, hook=None: got.append(conf)
paf.logging.configure = lambda *a: got.append(a)
paf.daemon.main(["pafd", "-n", "-u", "/x", "ux:y"])
assert got[1].log.syslog is False
assert got[1].log.syslog_socket == "/x"
""")

seed("c27-accept-twice", "C27",
     "a server which accepts a subscription or listing twice",
     "the second acceptance is taken as valid",
     [("paf/client.py",
       """        if msg_type == proto.MSG_TYPE_ACCEPT and \\
           self.state == TransactionState.REQUESTING and \\
""",
       """        if msg_type == proto.MSG_TYPE_ACCEPT and \\
           self.state in (TransactionState.REQUESTING,
                          TransactionState.ACCEPTED) and \\
""")],
     """
from peer import install, reply, usual


def answer(conn, msg):
    if msg["ta-cmd"] == "subscribe":
        return [reply(msg, "accept"), reply(msg, "accept")]
    return usual(conn, msg)


client = install(answer)
c = client.connect("ux:x", client_id=1)
events = []
c.subscribe(7, lambda ta, event, *a, **o: events.append(event.name))
try:
    for i in range(5):
        c.process()
except client.ProtocolError:
    pass
print(events)
assert events == ["ACCEPT"]
""")

seed("c28-late-terminate", "C28",
     "a callback of a synchronous call that fails after its first replies",
     "the error of a failed listing is lost once something has been listed",
     [("paf/client.py",
       """        Call.get(self)
        return self.notifications
""",
       """        try:
            Call.get(self)
        except TransactionError:
            if len(self.notifications) == 0:
                raise
        return self.notifications
""")],
     """
from peer import install, reply, usual


def answer(conn, msg):
    if msg["ta-cmd"] == "subscriptions":
        return [reply(msg, "accept"),
                reply(msg, "notify", subscription_id=3, client_id=4),
                reply(msg, "fail", fail_reason="insufficient-resources")]
    return usual(conn, msg)


client = install(answer)
c = client.connect("ux:x", client_id=1)
try:
    print(c.subscriptions())
except client.TransactionError:
    pass
else:
    raise SystemExit(1)
""")

seed("c29-binding-left", "C29",
     "a client that disconnects with no services, while it has an earlier "
     "connection with an orphan that has not yet expired",
     "once the orphan expires, the client is kept for ever, and with it the "
     "binding of the identity to the user",
     [("paf/sd.py",
       """        self.resource_manager.deallocate(self.user_id, ResourceType.SERVICE)

        if connection.is_stale():
            self.remove_connection(connection)

        if self.is_stale():
            self.db.remove_client(self)
""",
       """        self.resource_manager.deallocate(self.user_id, ResourceType.SERVICE)

        if connection.is_stale():
            stale = len(self.inactive_connections) == 1
            self.remove_connection(connection)

            if stale and connection.client is self and \\
               connection.get_subscriptions() is not None and \\
               self.active_connection is None and \\
               connection.connected_at == self.last_connected:
                self.db.remove_client(self)
"""),
      ("paf/sd.py",
       """        self.db.add_client(self)

        self.active_connection""",
       """        self.db.add_client(self)
        self.last_connected = time.time()

        self.active_connection""")],
     """
from net import Net, expect

net = Net(idle=(30, 60))
a = net.client(1, "tcp:10.0.0.1:1")
a.publish(5, ttl=8)
a.leave()
net.run(2)
a = net.client(1, "tcp:10.0.0.1:2")
net.run(1)
a.leave()
net.run(20)
b = net.join("tcp:10.0.0.2:1")
expect("another user", b.hello(1), "complete")
""")

seed("c30-shared-attrs", "C30",
     "a domain with TLS attributes on a socket, created before another "
     "domain or socket without",
     "attributes stick to the defaults and are used for the later sockets",
     [("paf/server.py",
       """PAF_TO_XCM_SOCKET_ATTRS = {""",
       """DEFAULT_SOCKET_ATTRS = {"xcm.blocking": False}

PAF_TO_XCM_SOCKET_ATTRS = {"""),
      ("paf/server.py",
       """        xcm_attrs = {"xcm.blocking": False}
""",
       """        xcm_attrs = DEFAULT_SOCKET_ATTRS
""")],
     """
import net as n
from net import Net, expect

seen = {}
plain = n.server


def server(addr, attrs=None):
    seen[addr] = dict(attrs)
    return plain(addr)


n.xcm.server = server
import paf.conf
import paf.server
import paf.sd
loop = n.Loop()
for addr, tls in (("tls:a:1", {"cert": "c", "crl": "r"}), ("tls:b:1", {})):
    paf.server.create(None, [paf.conf.SocketConf(addr, tls)],
                      paf.sd.resources(), paf.sd.resources(),
                      paf.conf.ProtoVersionLimitConf(2, 3),
                      paf.sd.IdleLimit(4, 30), loop)
expect("first", seen["tls:a:1"],
       {"xcm.blocking": False, "tls.cert_file": "c", "tls.crl_file": "r",
        "tls.check_crl": True})
expect("second", seen["tls:b:1"], {"xcm.blocking": False})
""")

seed("c34-crossing", "C34",
     "a client whose query crosses one of the server's",
     "the client's query is not answered while the server's own is "
     "outstanding",
     [("paf/server.py",
       """            yield ta.notify(proto.TRACK_TYPE_REPLY)
            self.debug("Replied""",
       """            # a query under way tells the client as much
            if not self.has_outstanding_track_query():
                yield ta.notify(proto.TRACK_TYPE_REPLY)
            self.debug("Replied""")],
     """
from net import Net, expect

net = Net(idle=(4, 8))
a = net.client(1)
ta = a.send("track")
net.run(5)
expect("query", [m.get("track-type") for m in a.replies(ta)][1:], ["query"])
a.send("track", "inform", ta=ta, track_type="query")
expect("reply", [m.get("track-type") for m in a.replies(ta)][1:],
       ["query", "reply"])
""")

seed("c32-last-only", "C32",
     "a failure to set up a domain, or the hook, with two or more domains "
     "set up before",
     "only the sockets of the last server are closed",
     [("paf/daemon.py",
       """        for server in servers:
            server.close_server_socks()
""",
       """        for server in servers[-1:]:
            server.close_server_socks()
""")],
     """
import os
import sys
import types
sys.path.insert(0, os.getcwd())
sys.modules["paf.xcm"] = types.ModuleType("paf.xcm")
import paf
paf.xcm = sys.modules["paf.xcm"]
import logging.handlers
import paf.logging
import paf.conf
import paf.daemon

closed = []


class Server:
    def __init__(self, name):
        self.name = name

    def close_server_socks(self):
        closed.append(self.name)


def create(name, *args):
    if name == "c":
        raise OSError("in use")
    return Server(name)


paf.daemon.exception = lambda *a: None
paf.daemon.info = lambda *a: None
paf.server.create = create
conf = paf.conf.default() if hasattr(paf.conf, "default") else \
    paf.conf.Conf()
conf.domains = []
for name in "abc":
    conf.add_domain(name)
try:
    paf.daemon.run(conf)
except SystemExit as e:
    assert e.code == 1
assert sorted(closed) == ["a", "b"], closed
""")

seed("c01-orphans-not-initial", "C01",
     "a subscription made while some matching service is an orphan",
     "orphans are left out of what a new subscription is first told",
     [("paf/sd.py",
       """        for service in self.db.get_services():
            subscription.notify(ChangeType.ADDED, service)
""",
       """        for service in self.db.get_services():
            # there is nobody left to provide an orphan's service
            if not service.is_orphan():
                subscription.notify(ChangeType.ADDED, service)
""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
a.publish(7, ttl=20, k=["v"])
a.leave()
b = net.client(2)
ta = b.send("subscribe", subscription_id=1)
expect("told", [m.get("match-type") for m in b.replies(ta)],
       [None, "appeared"])
""")

seed("c02-empty-props-not", "C02",
     "a listing with a negative filter and a service without properties",
     "a service without properties matches no filter at all in listings",
     [("paf/server.py",
       """                if filter is None or filter.match(service.props()):
                    yield ta.notify(service.service_id, service.generation(),""",
       """                if filter is None or \\
                   (service.props() and filter.match(service.props())):
                    yield ta.notify(service.service_id, service.generation(),""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
a.publish(7)
ta = a.send("services", filter="(!(k=v))")
expect("listed", [m["msg-type"] for m in a.replies(ta)],
       ["accept", "notify", "complete"])
""")

seed("c03-latency-zero", "C03",
     "a tracked client whose reply arrives within the same clock tick",
     "a latency of zero is left out of the listing of clients",
     [("paf/server.py",
       """            if conn.is_tracked():
                optargs["latency"] = conn.track_latency
""",
       """            if conn.is_tracked() and conn.track_latency:
                optargs["latency"] = conn.track_latency
""")],
     """
from net import Net, Clock, expect

net = Net(idle=(4, 8))
a = net.client(1)
ta = a.send("track")
net.run(5)
expect("query", [m.get("track-type") for m in a.replies(ta)][1:], ["query"])
a.send("track", "inform", ta=ta, track_type="reply")
b = net.client(2)
# the clock does not advance by more than the reply took
lat = [m.get("latency") for m in b.listing("clients") if m["client-id"] == 1]
assert lat[0] is not None
at = Clock.now
Clock.now = at
net2 = Net(idle=(4, 8))
c = net2.client(3)
tc = c.send("track")
conn = list(net2.server.client_connections.values())[0]
conn.check_idle()
net2.loop.settle()
c.send("track", "inform", ta=tc, track_type="reply")
expect("latency", [m.get("latency") for m in c.listing("clients")], [0.0])
""")

seed("c04-capture-before-check", "C04",
     "a publication of another client's service refused because of its "
     "generation or contents, and then a change by the owner",
     "the service is moved to the refused publisher's connection",
     [("paf/sd.py",
       """            if generation == service.generation():
                if service_props""",
       """            captured = self.client_id != service.client_id()

            if captured:
                self.capture_service(service)

            if generation == service.generation():
                if service_props"""),
      ("paf/sd.py",
       """                if prev_client_id != self.client_id:
                    self.capture_service(service)

                    with""",
       """                if prev_client_id != self.client_id:
                    with"""),
      ("paf/sd.py",
       """                if self.client_id != service.client_id() or \\
                   service.is_orphan():
                    self.capture_service(service)
""",
       """                if not captured and service.is_orphan():
                    self.capture_service(service)
""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
b = net.client(2)
expect("publish", a.publish(7, 5, 20), "complete")
expect("old", b.publish(7, 4, 20), "old-generation")
b.leave()
expect("orphans", [m.get("orphan-since") for m in a.listing()], [None])
expect("unpublish", a.ask("unpublish", service_id=7), "complete")
expect("left", a.listing(), [])
""")

seed("c05-orphan-anyone", "C05",
     "a user taking over, or removing, another user's orphan",
     "the user of an orphan is not checked",
     [("paf/sd.py",
       """        if service is not None:
            service.check_access(self.user_id)

            if generation""",
       """        if service is not None:
            if not service.is_orphan():
                service.check_access(self.user_id)

            if generation""")],
     """
from net import Net, expect

net = Net("tcp:x:1")
a = net.client(1, "tcp:1.1.1.1:1000")
a.publish(7, 1, 20)
b = net.client(2, "tcp:2.2.2.2:1000")
expect("live", b.publish(7, 2, 20), "permission-denied")
a.leave()
expect("orphan", b.publish(7, 2, 20), "permission-denied")
""")

seed("c07-zero-ttl", "C07",
     "a service with time to live zero whose owner disconnects",
     "such an orphan is never removed",
     [("paf/sd.py",
       """        service_id = service.service_id

        def handler():
            self.orphan_timeout(service_id)
""",
       """        service_id = service.service_id

        # zero means there is no limit
        if service.ttl() == 0:
            return

        def handler():
            self.orphan_timeout(service_id)
""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
a.publish(7, 1, 0)
a.publish(8, 1, 5)
b = net.client(2)
a.leave()
net.run(1)
expect("left", [m["service-id"] for m in b.listing()], [8])
""")

seed("c08-takeover-timer", "C08",
     "an orphan taken over by another client of the user, which stays "
     "connected past the orphan's time",
     "only the previous owner's return cancels the removal",
     [("paf/sd.py",
       """            if was_orphan and not is_orphan:
                self.remove_orphan_timer(service)
""",
       """            if was_orphan and not is_orphan and \\
               service.client_id() == service.prev_client_id():
                self.remove_orphan_timer(service)
""")],
     """
from net import Net, expect

net = Net()
a = net.client(1, lo=2, hi=2)
a.publish(7, 1, 5)
b = net.client(2, lo=2, hi=2)
a.leave()
net.run(2)
expect("takeover", b.publish(7, 2, 5), "complete")
net.run(10)
expect("left", [m["service-id"] for m in b.listing()], [7])
""")

seed("c09-failed-subscribe-leaks", "C09",
     "a limit on subscriptions, and subscribing with an identifier in use",
     "the refused subscription is charged all the same",
     [("paf/sd.py",
       """        if self.db.has_subscription(sub_id):
            raise AlreadyExistsError("subscription", sub_id)

        self.resource_manager.allocate(self.user_id,
                                       ResourceType.SUBSCRIPTION)

        subscription""",
       """        self.resource_manager.allocate(self.user_id,
                                       ResourceType.SUBSCRIPTION)

        if self.db.has_subscription(sub_id):
            raise AlreadyExistsError("subscription", sub_id)

        subscription""")],
     """
from net import Net, expect

net = Net(user={"subscriptions": 3})
a = net.client(1)
expect("first", a.ask("subscribe", subscription_id=1), "accept")
expect("again", a.ask("subscribe", subscription_id=1),
       "subscription-id-exists")
expect("second", a.ask("subscribe", subscription_id=2), "accept")
expect("third", a.ask("subscribe", subscription_id=3), "accept")
""")

seed("c09-orphans-free", "C09",
     "a limit on services, an owner which left, and publications by others "
     "of the user",
     "services which became orphans no longer count",
     [("paf/sd.py",
       """    def total(self, resource_type):
        total = 0
        for consumer in self.consumers.values():
            total += consumer.used_resources[resource_type]
        return total
""",
       """    def total(self, resource_type):
        total = 0
        for consumer in self.consumers.values():
            # a user without clients is about to be gone
            if consumer.used_resources[ResourceType.CLIENT] > 0 or \\
               resource_type == ResourceType.CLIENT:
                total += consumer.used_resources[resource_type]
        return total
""")],
     """
from net import Net, expect

net = Net("tcp:x:1", total={"services": 1})
a = net.client(1, "tcp:1.1.1.1:1000")
expect("first", a.publish(7, 1, 20), "complete")
a.leave()
b = net.client(2, "tcp:2.2.2.2:1000")
expect("second", b.publish(8, 1, 20), "insufficient-resources")
""")

seed("c10-ping-early", "C10",
     "a ping before the handshake",
     "it is answered as if the client had said hello",
     [("paf/server.py",
       """        if in_msg.cmd() == proto.CMD_HELLO or self.handshaked:
""",
       """        if in_msg.cmd() in (proto.CMD_HELLO, proto.CMD_PING) or \\
           self.handshaked:
""")],
     """
from net import Net, expect

net = Net()
a = net.join()
expect("ping", a.ask("ping"), "no-hello")
expect("hello", a.hello(1), "complete")
expect("ping", a.ask("ping"), "complete")
""")

seed("c11-inverted", "C11",
     "a hello whose minimum version is above its maximum",
     "the bounds are swapped rather than found to have nothing in common",
     [("paf/conf.py",
       """        max_version = min(client_version_max, self.version_max)
        min_version = max(client_version_min, self.version_min)
""",
       """        client_versions = sorted([client_version_min, client_version_max])
        max_version = min(client_versions[1], self.version_max)
        min_version = max(client_versions[0], self.version_min)
""")],
     """
from net import Net, expect

net = Net()
a = net.join()
expect("hello", a.hello(1, 3, 2), "unsupported-protocol-version")
b = net.join()
expect("hello", b.hello(2, 9, 0), "unsupported-protocol-version")
""")

seed("c12-key-truncated", "C12",
     "two peers with keys whose identifiers start with the same eight bytes",
     "both are taken for the same user",
     [("paf/server.py",
       """                    ":".join(["%02x" % b for b in subject_key_id])
""",
       """                    ":".join(["%02x" % b for b in subject_key_id[:8]])
""")],
     """
from net import Net, expect

net = Net("tls:x:1")
ski = {"tls.peer_subject_key_id": bytes(range(20))}
other = {"tls.peer_subject_key_id": bytes(range(19)) + b"x"}
a = net.join("tls:1.1.1.1:1000", **ski)
expect("hello", a.hello(1), "complete")
a.publish(7, 1, 20)
b = net.join("tls:1.1.1.1:1001", **other)
expect("hello", b.hello(2), "complete")
expect("take", b.publish(7, 2, 20), "permission-denied")
""")

seed("c13-accept-raise", "C13",
     "accepting a connection failing in a way other than there being none",
     "the failure is not handled, and takes the server down",
     [("paf/server.py",
       """                        if e.errno != errno.EAGAIN:
                            self.debug("Error accepting client: %s" % e,
                                       LogCategory.PROTOCOL)
                        break
""",
       """                        if e.errno in (errno.EAGAIN, errno.ECONNABORTED,
                                       errno.ECONNRESET, errno.EMFILE):
                            break
                        raise
""")],
     """
import errno
from net import Net, listening, expect

net = Net()
a = net.client(1)
sock = listening["ux:test"]
accept = sock.accept


def failing(attrs=None):
    sock.accept = accept
    sock.queue.pop(0)
    raise OSError(errno.EPROTO, "handshake failed")


sock.accept = failing
sock.queue.append(None)
net.loop.settle()
expect("ping", a.ask("ping"), "complete")
b = net.client(2)
expect("ping", b.ask("ping"), "complete")
""")

seed("c15-scalar-props", "C15",
     "a publication with a property whose value is not in a list",
     "it is taken for a list of one",
     [("paf/proto.py",
       """            if not isinstance(values, list):
                raise""",
       """            if isinstance(values, str):
                values = [values]
            if not isinstance(values, list):
                raise""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
expect("publish", a.publish(7, k="v"), None)
expect("dropped", a.alive(), False)
""")

seed("c17-track-lets-in", "C17",
     "a tracked client that stops reading with a query outstanding, and "
     "goes on sending requests",
     "there is no bound on what is queued for it",
     [("paf/server.py",
       """        return len(self.out_wire_msgs) < SOFT_OUT_WIRE_LIMIT
""",
       """        return len(self.out_wire_msgs) < SOFT_OUT_WIRE_LIMIT or \\
            self.has_outstanding_track_query()
""")],
     """
from net import Net, expect

net = Net(idle=(4, 8))
a = net.client(1)
ta = a.send("track")
net.run(5)
expect("query", [m.get("track-type") for m in a.replies(ta)][1:], ["query"])
a.window = 0
for i in range(600):
    a.send("ping", settle=False)
conn = list(net.server.client_connections.values())[0]
for i in range(600):
    if conn.conn_sock.ready():
        conn.activate()
print(len(conn.out_wire_msgs), "queued")
expect("bounded", len(conn.out_wire_msgs) <= 256, True)
""")

seed("c18-informs-dont-count", "C18",
     "a tracked client that does nothing but reply to queries",
     "its replies do not keep it connected",
     [("paf/server.py",
       """            if self.handshaked:
                self.sd.client_active(self.client_id)
""",
       """            if self.handshaked and in_msg.is_request():
                self.sd.client_active(self.client_id)
""")],
     """
from net import Net, expect

net = Net(idle=(4, 8))
a = net.client(1)
ta = a.send("track")
seen = 0
for i in range(60):
    net.run(0.5)
    queries = [m for m in a.replies(ta) if m.get("track-type") == "query"]
    while seen < len(queries):
        seen += 1
        a.send("track", "inform", ta=ta, track_type="reply")
    expect("alive after %.1f" % ((i + 1) / 2), a.alive(), True)
""")

seed("c19-failed-hello-resets", "C19",
     "a peer that keeps on sending hellos that fail",
     "every attempt gives it another two seconds",
     [("paf/server.py",
       """        if min_version == max_version:
            self.debug("Client supports""",
       """        # the client counts as connected from here
        self.connect_time = time.time()

        if min_version == max_version:
            self.debug("Client supports""")],
     """
from net import Net, expect

net = Net()
a = net.join()
for i in range(10):
    net.run(0.5)
    if a.alive():
        a.hello(1, 9, 9)
expect("dropped", a.alive(), False)
""")

seed("c20-value-stripped", "C20",
     "a filter with a value with blanks at its ends",
     "they are dropped",
     [("paf/filter.py",
       """    state.expect(EQUAL)
    value = _parse_str(state)
""",
       """    state.expect(EQUAL)
    value = _parse_str(state).strip()
""")],
     """
import os
import sys
sys.path.insert(0, os.getcwd())
import paf.filter

f = paf.filter.parse("(k= v)")
assert f.match({"k": {" v"}})
assert not f.match({"k": {"v"}})
assert str(f) == "(k= v)", str(f)
""")

seed("c21-repeated-piece", "C21",
     "printing a substring filter with the same piece twice in the middle",
     "the piece is printed once",
     [("paf/filter.py",
       """            s += ANY
        for im in self.intermediate:
            s +=""",
       """            s += ANY
        for im in dict.fromkeys(self.intermediate):
            s +=""")],
     """
import os
import sys
sys.path.insert(0, os.getcwd())
import paf.filter

f = paf.filter.parse("(k=*a*b*a*)")
g = paf.filter.parse(str(f))
for value in ("aba", "ab", "ba", "abba"):
    assert f.match({"k": {value}}) == g.match({"k": {value}}), value
""")

seed("c22-equal-numbers", "C22",
     "an equality filter with a numeral that is not spelled as usual",
     "it is compared as a number with integer values",
     [("paf/filter.py",
       """            return self.value == value
        else:
            return self.value == str(value)
""",
       """            return self.value == value
        else:
            try:
                return int(self.value) == value
            except ValueError:
                return False
""")],
     """
import os
import sys
sys.path.insert(0, os.getcwd())
import paf.filter

f = paf.filter.parse("(k=007)")
assert not f.match({"k": {7}})
assert paf.filter.parse("(k=7)").match({"k": {7}})
""")

seed("c24-starve", "C24",
     "a source with a deadline while other sources keep on being ready",
     "deadlines are looked at only in rounds in which no descriptor is ready",
     [("paf/eventloop.py",
       """            if timeout == 0:
                self.fire_timeouts()
                if self._stop:
                    break
            else:
                fds = self.epoll.poll(timeout=timeout)
                if len(fds) > 0:
                    self.handle_fds(fds)
                else:
                    self.fire_timeouts()
                if self._stop:
                    break
""",
       """            fds = self.epoll.poll(timeout=timeout)
            if len(fds) > 0:
                self.handle_fds(fds)
            else:
                self.fire_timeouts()
            if self._stop:
                break
""")],
     """
import os
import select
import sys
import time
sys.path.insert(0, os.getcwd())
import paf.eventloop

loop = paf.eventloop.EventLoop()
rfd, wfd = os.pipe()
os.write(wfd, b"x")
busy = paf.eventloop.Source()
busy.set_fd(rfd, select.EPOLLIN)
rounds = []


def work():
    rounds.append(1)
    time.sleep(0.001)
    if len(rounds) > 500:
        loop.stop()


timed = paf.eventloop.Source()
timed.set_timeout(time.time() + 0.05)
fired = []


def fire():
    fired.append(1)
    loop.stop()


loop.add(busy, work)
loop.add(timed, fire)
loop.run()
assert fired, "deadline passed over"
""")

seed("c25-falsy", "C25",
     "a configuration which sets a parameter to false or zero",
     "the parameter is taken for absent",
     [("paf/conf.py",
       """    if value is None:
        if required:""",
       """    if not value:
        if required:""")],
     """
import os
import sys
sys.path.insert(0, os.getcwd())
import logging.handlers
import paf.conf
import tempfile

f = tempfile.NamedTemporaryFile("w", suffix=".yaml")
f.write("log:\\n  syslog: false\\ndomains:\\n- addrs: [ux:a]\\n")
f.flush()
conf = paf.conf.load(f.name)
assert conf.log.syslog is False
""")

seed("c26-o-resets-backup", "C26",
     "-o after -b, or with a configuration file that sets up rotation",
     "the number of backups falls back to the default",
     [("paf/conf.py",
       """    def set_log_file(self, log_file):
        self.log_file = log_file
""",
       """    def set_log_file(self, log_file):
        self.log_file = log_file
        self.log_file_backup = DEFAULT_LOG_FILE_BACKUP
""")],
     """
import os
import sys
import types
sys.path.insert(0, os.getcwd())
sys.modules["paf.xcm"] = types.ModuleType("paf.xcm")
import paf
paf.xcm = sys.modules["paf.xcm"]
import logging.handlers
import paf.logging
import paf.conf
import paf.daemon

got = []
paf.logging.configure = lambda *args: got.append(args)
paf.daemon.run = lambda conf, hook: None
paf.daemon.main(["pafd", "-b", "3", "-o", "f", "ux:a"])
assert got[0][1:3] == ("f", 3), got
""")

seed("c27-notify-before-accept", "C27",
     "a server that notifies in a transaction it has not accepted",
     "the notification is delivered",
     [("paf/client.py",
       """        elif (msg_type == proto.MSG_TYPE_NOTIFY and
              self.state == TransactionState.ACCEPTED):
""",
       """        elif (msg_type == proto.MSG_TYPE_NOTIFY and
              self.ta_type.ia_type !=
              proto.InteractionType.SINGLE_RESPONSE and
              self.state != TransactionState.TERMINATED):
""")],
     """
from peer import install, usual, reply, expect


def answer(conn, msg):
    if msg["ta-cmd"] == "subscribe":
        return [reply(msg, "notify", match_type="disappeared",
                      service_id=1)]
    return usual(conn, msg)


client = install(answer)
c = client.connect("ux:x")
got = []
c.subscribe(1, lambda ta_id, event, *args, **optargs: got.append(event))
try:
    c.process()
except client.Error:
    pass
expect("delivered", got, [])
""")

seed("c28-empty-filter", "C28",
     "a subscription, or a listing, with an empty filter expression",
     "no filter is sent rather than the (malformed) one given",
     [("paf/client.py",
       """        return self.async_request(proto.TA_SUBSCRIBE, (sub_id,),
                                  {'filter': filter}, response_cb)
""",
       """        return self.async_request(proto.TA_SUBSCRIBE, (sub_id,),
                                  {'filter': filter or None}, response_cb)
""")],
     """
from peer import install, conns, expect

client = install()
c = client.connect("ux:x")
c.subscribe(1, lambda *args, **optargs: None, filter="")
expect("filter", conns[0].sent[-1].get("filter"), "")
""")

seed("c29-tentative-timer-left", "C29",
     "a client that leaves after having been found idle",
     "the timer of its connection is left behind, and hits whoever uses the "
     "identity next",
     [("paf/sd.py",
       """        self.disconnected_at = time.time()
        self.uninstall_idle_timer()
""",
       """        self.disconnected_at = time.time()
        if self.idle_state == IdleState.ACTIVE:
            self.uninstall_idle_timer()
""")],
     """
from net import Net, expect

net = Net(idle=(4, 8))
a = net.client(1)
net.run(5)
a.leave()
b = net.client(1)
for i in range(20):
    net.run(0.5)
    expect("ping", b.ask("ping"), "complete")
""")

seed("c30-shared-clean", "C30",
     "two domains, and peers which do not complete the handshake",
     "connections without a client are kept in one set for all domains",
     [("paf/server.py",
       """class Server:
    def __init__""",
       """class Server:
    clientless_connections = set()

    def __init__"""),
      ("paf/server.py",
       """        self.clientless_connections = set()
""", "")],
     """
from net import Net, Loop, expect

loop = Loop()
one = Net("ux:one", total={"clients": 2}, loop=loop)
two = Net("ux:two", total={"clients": 2}, loop=loop)
a = one.join()
b = one.join()
c = two.join()
expect("hello", c.hello(1), "complete")
""")

seed("c31-json-tab", "C31",
     "a domain file in JSON that starts with a tab or a carriage return",
     "it is read as a list of addresses",
     [("paf/client.py",
       """        if c in ('\\n', '\\r', ' ', '\\t'):
            continue
""",
       """        if c in ('\\n', ' '):
            continue
""")],
     """
import os
import tempfile
from peer import install, expect

client = install()
with tempfile.TemporaryDirectory() as d:
    os.environ["PAF_DOMAINS"] = d
    with open(os.path.join(d, "dom"), "w") as f:
        f.write('\\t{"servers": [{"address": "tls:1.2.3.4:5"}]}')
    expect("servers", [s.addr for s in client.read_domain("dom")],
           ["tls:1.2.3.4:5"])
""")

seed("c31-comment-indent", "C31",
     "a domain file with a comment that does not start its line",
     "the comment is taken for an address",
     [("paf/client.py",
       """        if len(addr) == 0 or addr[0] == '#':
""",
       """        if len(addr) == 0 or line[0] == '#':
""")],
     """
import os
import tempfile
from peer import install, expect

client = install()
with tempfile.TemporaryDirectory() as d:
    os.environ["PAF_DOMAINS"] = d
    with open(os.path.join(d, "dom"), "w") as f:
        f.write('# one\\n  # two\\nux:a\\n')
    expect("servers", [s.addr for s in client.read_domain("dom")], ["ux:a"])
""")

seed("c32-hangup", "C32",
     "a hangup signal",
     "the process ends at once, without an orderly shutdown",
     [("paf/eventloop.py",
       """        for signo in (signal.SIGTERM, signal.SIGHUP, signal.SIGINT):
""",
       """        for signo in (signal.SIGTERM, signal.SIGINT):
""")],
     """
import os
import signal
import subprocess
import sys
import time

p = subprocess.Popen([sys.executable, "-c", '''
import os, sys
sys.path.insert(0, os.getcwd())
import paf.eventloop
loop = paf.eventloop.EventLoop()
print("ready", flush=True)
loop.run()
print("orderly", flush=True)
'''], stdout=subprocess.PIPE, text=True)
assert p.stdout.readline() == "ready\\n"
time.sleep(0.3)
p.send_signal(signal.SIGHUP)
try:
    out = p.communicate(timeout=20)[0]
except subprocess.TimeoutExpired:
    p.kill()
    raise
assert out == "orderly\\n", out
""")

seed("c34-second-reply", "C34",
     "a client that replies more than once to a query, or is to be queried "
     "a second time",
     "the query stays outstanding for ever",
     [("paf/server.py",
       """            self.track_latency = time.time() - self.track_query_ts
            self.track_query_ts = None
""",
       """            self.track_latency = time.time() - self.track_query_ts
""")],
     """
from net import Net, expect

net = Net(idle=(4, 8))
a = net.client(1)
ta = a.send("track")
net.run(5)
expect("query", [m.get("track-type") for m in a.replies(ta)][1:], ["query"])
a.send("track", "inform", ta=ta, track_type="reply")
expect("alive", a.alive(), True)
net.run(5)
expect("query", [m.get("track-type") for m in a.replies(ta)][1:],
       ["query", "query"])
a.send("track", "inform", ta=ta, track_type="reply")
a.send("track", "inform", ta=ta, track_type="reply")
expect("dropped", a.alive(), False)
""")

seed("c35-multi-value", "C35",
     "publishing a service with two values for the same property",
     "only the last one is published",
     [("app/pafc",
       """        service_props[args[i]].add(value)
""",
       """        service_props[args[i]] = {value}
""")],
     """
from shell import pafc
from peer import expect

rc, out, addrs, sent = pafc(["ux:x"], ["publish 1 1 5 k a k b"])
props = [m["service-props"] for m in sent if m["ta-cmd"] == "publish"]
expect("props", [{k: sorted(v) for k, v in p.items()} for p in props],
       [{"k": ["a", "b"]}])
""")

seed("c35-latency-shown-for-other", "C35",
     "a listing of clients of which some are tracked",
     "a client which is not tracked is shown with its predecessor's latency",
     [("app/pafc",
       """            for c in clients:
                client_id = c[0]""",
       """            client_latency_s = "-"

            for c in clients:
                client_id = c[0]"""),
      ("app/pafc",
       """                        client_latency_s = "%.1f" % (client_latency * 1e3)
                    else:
                        client_latency_s = "-"
""",
       """                        client_latency_s = "%.1f" % (client_latency * 1e3)
""")],
     """
import json
from shell import pafc
from peer import expect

c = {"client-address": "ux:p", "time": 1, "idle": 0.5,
     "protocol-version": 3}
rc, out, addrs, sent = pafc(["ux:x"], ["clients"], extra=json.dumps({
    "clients": [["accept", {}],
                ["notify", dict(c, **{"client-id": 0xaa, "latency": 0.25})],
                ["notify", dict(c, **{"client-id": 0xbb})],
                ["complete", {}]]}))
row = [line for line in out.split("\\n") if line.startswith("bb")]
expect("rows", len(row), 1)
expect("latency", "250.0" in row[0], False)
""")

seed("c38-index-beyond", "C38",
     "a server index beyond the servers of the domain",
     "the last server is used instead of refusing",
     [("app/pafc",
       """            elif server_num < len(servers):
                server = servers[server_num]
""",
       """            elif server_num <= len(servers):
                server = servers[min(server_num, len(servers) - 1)]
""")],
     """
import os
import tempfile
from shell import pafc
from peer import expect

with tempfile.TemporaryDirectory() as d:
    with open(os.path.join(d, "dom"), "w") as f:
        f.write("ux:a\\nux:b\\n")
    env = {"PAF_DOMAINS": d}
    rc, out, addrs, sent = pafc(["-n", "2", "dom"], [], env=env)
    expect("outcome", (rc, addrs), (1, []))
    rc, out, addrs, sent = pafc(["-n", "1", "dom"], [], env=env)
    expect("outcome", (rc, addrs), (0, ["ux:b"]))
""")

seed("c01-orphaned-silent", "C01",
     "a subscriber and a service whose owner leaves without any other "
     "change to the service",
     "a modification is notified only when a newer generation was published, "
     "so subscribers do not learn that a service became an orphan",
     [("paf/sd.py",
       """            if self.matches(before) and self.matches(after):
                self.match_cb(self.sub_id, MatchType.MODIFIED, service)
""",
       """            if self.matches(before) and self.matches(after):
                if service.generation() != service.prev_generation() or \\
                   not service.is_orphan():
                    self.match_cb(self.sub_id, MatchType.MODIFIED, service)
""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
a.publish(5, ttl=9, x=["y"])
b = net.client(2)
ta = b.send("subscribe", subscription_id=7)
a.leave()
got = [m for m in b.replies(ta) if m["msg-type"] == "notify"]
expect("kinds", [m["match-type"] for m in got], ["appeared", "modified"])
expect("orphan", "orphan-since" in got[-1], True)
""")

seed("c02-orphan-flag-sticks", "C02",
     "a service that was an orphan, was reclaimed at a newer generation by "
     "its former owner, and is listed",
     "the listing still shows the orphan time of a service which was "
     "reclaimed with a newer generation",
     [("paf/sd.py",
       """                    change.generation = generation
                    change.props = service_props
                    change.ttl = ttl
                    change.orphan_since = None
                    change.client_id = self.client_id
                    change.user_id = self.user_id
            else:""",
       """                    change.generation = generation
                    change.props = service_props
                    change.ttl = ttl
                    if change.client_id != self.client_id:
                        change.orphan_since = None
                    change.client_id = self.client_id
                    change.user_id = self.user_id
            else:""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
a.publish(5, ttl=9, generation=1, x=["y"])
a.leave()
net.run(1)
a = net.client(1)
expect("reclaim", a.publish(5, ttl=9, generation=2, x=["z"]), "complete")
b = net.client(2)
got = b.listing()
expect("listed", [(m["service-id"], m["generation"], m["service-props"])
                  for m in got], [(5, 2, {"x": ["z"]})])
expect("orphan time", [m.get("orphan-since") for m in got], [None])
""")

seed("c02-filter-stops", "C02",
     "a filtered listing where a service that does not match comes between "
     "two that do",
     "the listing stops at the first service that does not match after one "
     "that did",
     [("paf/server.py",
       """            for service in self.sd.get_services():
                if filter is None or filter.match(service.props()):
                    yield""",
       """            found = False
            for service in self.sd.get_services():
                matches = filter is None or filter.match(service.props())
                if found and not matches:
                    break
                if matches:
                    found = True
                    yield""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
for i, v in enumerate(["p", "q", "p"]):
    a.publish(i, x=[v])
ta = a.send("services", filter="(x=p)")
got = [m["service-id"] for m in a.replies(ta) if m["msg-type"] == "notify"]
expect("listing", got, [0, 2])
""")

seed("c04-subset-same", "C04",
     "a republication at the same generation which only leaves out some of "
     "the properties",
     "properties that are a part of those known are taken for the same",
     [("paf/sd.py",
       "                if service_props != service.props() or ttl != "
       "service.ttl():\n",
       "                known = service.props()\n"
       "                if any(known.get(key) != values for key, values\n"
       "                       in service_props.items()) or "
       "ttl != service.ttl():\n")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
a.publish(5, x=["1"], y=["2"])
expect("subset", a.publish(5, x=["1"]), "same-generation-but-different")
expect("same", a.publish(5, x=["1"], y=["2"]), "complete")
expect("superset", a.publish(5, x=["1"], y=["2"], z=["3"]),
       "same-generation-but-different")
""")

seed("c06-orphan-owner-unchanged", "C06",
     "another client of the user republishes, at the same generation, a "
     "service whose owner is still connected, and then leaves",
     "taking over a live service at its generation changes the owner shown, "
     "but leaves the service with the old owner's connection",
     [("paf/sd.py",
       """                if prev_client_id != self.client_id:
                    self.capture_service(service)
""",
       """                if prev_client_id != self.client_id:
                    if service.is_orphan():
                        self.capture_service(service)
""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
b = net.client(2)
c = net.client(3)
a.publish(5)
expect("taken over", b.publish(5), "complete")
expect("owner", [m["client-id"] for m in c.listing()], [2])
a.leave()
expect("old owner's leave", ["orphan-since" in m for m in c.listing()],
       [False])
b.leave()
expect("new owner's leave", ["orphan-since" in m for m in c.listing()],
       [True])
""")

seed("c08-old-deadline", "C08",
     "an orphan reclaimed by its former owner, whose new connection then "
     "ends within the TTL of the first loss",
     "a service's first orphan time is kept for its later orphanings, so the "
     "service is removed before it had its full TTL",
     [("paf/sd.py",
       """    def orphan_timeout(self):
        return self.orphan_since() + self.ttl()

    def was_orphan""",
       """    def orphan_timeout(self):
        if not hasattr(self, "lost_at"):
            self.lost_at = self.orphan_since()
        if self.orphan_since() - self.lost_at > self.ttl():
            self.lost_at = self.orphan_since()
        return self.lost_at + self.ttl()

    def was_orphan""")],
     """
from net import Net, expect

net = Net(idle=(100, 100))
b = net.client(2)
a = net.client(1)
a.publish(5, ttl=20)
a.leave()
net.run(5)
a = net.client(1)
a.publish(5, ttl=20)
net.run(5)
a.leave()
net.run(15)
expect("still there", len(b.listing()), 1)
net.run(6)
expect("gone", len(b.listing()), 0)
""")

seed("c11-stale-version", "C11",
     "a connection whose first hello failed since its client identity was in "
     "use, and which then asks for another range of versions",
     "the version is chosen at the first hello of a connection only",
     [("paf/server.py",
       """        self.proto_version = \\
            self.proto_version_limit.get_highest_allowed(min_version,
                                                         max_version)
""",
       """        if self.proto_version is None:
            self.proto_version = \\
                self.proto_version_limit.get_highest_allowed(min_version,
                                                             max_version)
""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
b = net.join()
expect("in use", b.hello(1, 2, 3), "client-id-exists")
a.leave()
ta = b.send("hello", client_id=1, protocol_minimum_version=2,
            protocol_maximum_version=2)
expect("version", [m.get("protocol-version") for m in b.replies(ta)], [2])
""")

seed("c11-format-by-domain", "C11",
     "a version 2 client in a domain that also allows version 3, which lists "
     "clients or sends a track request",
     "messages are decoded by the highest version of the domain instead of "
     "the one negotiated",
     [("paf/server.py",
       """        in_msg = Message.parse(self.proto_version, in_wire_msg)

        ta = self.tas""",
       """        version = self.proto_version
        if self.handshaked:
            version = self.proto_version_limit.version_max
        in_msg = Message.parse(version, in_wire_msg)

        ta = self.tas""")],
     """
from net import Net, expect

net = Net()
a = net.client(1, hi=2)
a.send("track")
expect("dropped", a.alive(), False)
""")

seed("c13-surrogates", "C13",
     "a property holding an escaped lone surrogate, and a client that lists "
     "services",
     "messages are encoded as UTF-8 text without escapes, which fails for "
     "text that is valid JSON but cannot be encoded",
     [("paf/proto.py",
       "        out_wire_msg = json.dumps(out_msg).encode('utf-8')\n",
       "        out_wire_msg = \\\n"
       "            json.dumps(out_msg, ensure_ascii=False).encode('utf-8')\n"
       )],
     """
from net import Net, expect

net = Net()
a = net.client(1)
b = net.client(2)
a.publish(5, x=["\\ud800"])
expect("other client", b.ask("ping"), "complete")
expect("listed", len(b.listing()), 1)
""")

seed("c14-silent-subscription", "C14",
     "a subscription to which nothing matches at first, cancelled before "
     "anything ever matched",
     "a subscription without any notification is not completed when it is "
     "cancelled",
     [("paf/server.py",
       """            del self.sub_tas[sub_id]
            yield sub_ta.complete()
            yield ta.complete()
""",
       """            del self.sub_tas[sub_id]
            if sub_ta.ta_id in self.tas and self.notified(sub_ta):
                yield sub_ta.complete()
            yield ta.complete()
"""),
      ("paf/server.py",
       """    def subscriptions_request(self, ta):
""",
       """    def notified(self, sub_ta):
        return sub_ta.responses > 1

    def subscriptions_request(self, ta):
"""),
      ("paf/server.py",
       """        out_msg = Message(self.ta_type, self.ta_id, msg_type, args, optargs)
""",
       """        self.responses = getattr(self, "responses", 0) + 1
        out_msg = Message(self.ta_type, self.ta_id, msg_type, args, optargs)
""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
ta = a.send("subscribe", subscription_id=7)
expect("canceled", a.ask("unsubscribe", subscription_id=7), "complete")
expect("types", [m["msg-type"] for m in a.replies(ta)],
       ["accept", "complete"])
""")

seed("c16-same-text", "C16",
     "a property with an integer value and a string value of the same text",
     "values of a property which read the same are sent once",
     [("paf/proto.py",
       """            for value in values:
                wire_props[key].append(value)
""",
       """            for value in {str(v): v for v in values}.values():
                wire_props[key].append(value)
""")],
     """
import os
import sys

sys.path.insert(0, os.getcwd())
import paf.proto as proto

for values in ({1}, {"1"}, {1, "1"}, {1, "2"}):
    m = proto.Message(proto.TA_PUBLISH, 7, "request",
                      [1, 2, {"x": values}, 3], {})
    got = proto.Message.parse(3, m.to_wire())
    if dict(got.args[2]) != {"x": values}:
        print("FAILED: %r became %r" % (values, got.args[2]))
        sys.exit(1)
print("ok")
""")

seed("c17-batch-reversed", "C17",
     "two or more messages waiting as the transport refuses to take one",
     "the messages of a batch are put back in reverse order",
     [("paf/server.py",
       """        for i in range(min(MAX_SEND_BATCH, len(self.out_wire_msgs))):
            try:
                out_wire_msg = self.out_wire_msgs.popleft()
                self.conn_sock.send(out_wire_msg)
""",
       """        batch = [self.out_wire_msgs.popleft() for i in
                 range(min(MAX_SEND_BATCH, len(self.out_wire_msgs)))]
        for out_wire_msg in batch:
            try:
                self.conn_sock.send(out_wire_msg)
""")],
     """
from net import Net, expect

net = Net()
a = net.client(1)
for i in range(5):
    a.publish(i)
b = net.client(2)
b.window = 2
ta = b.send("services")
b.window = None
net.loop.settle()
got = b.replies(ta)
expect("replies", [m.get("service-id") for m in got],
       [None, 0, 1, 2, 3, 4, None])
""")

seed("c18-second-half", "C18",
     "a version 3 client with a short TTL service, silent after the server's "
     "idle check",
     "the second half of the idle time is taken from the upper bound, "
     "whatever the TTL of the client's services",
     [("paf/sd.py",
       "        self.install_idle_timer((1 - WARNING_THRESHOLD) * "
       "self.max_idle_time())\n",
       "        self.install_idle_timer((1 - WARNING_THRESHOLD) *\n"
       "                                self.idle_limit.idle_default())\n")],
     """
from net import Net, expect

net = Net(idle=(4, 30))
a = net.client(1)
a.publish(5, ttl=10)
net.run(11)
expect("dropped", a.alive(), False)
""")

seed("c18-v2-dropped-late", "C18",
     "a version 2 client which is silent for two idle checks",
     "a version 2 client is spared once only",
     [("paf/server.py",
       """        if self.proto_version < 3:
            self.sd.client_active(self.client_id)
""",
       """        if self.proto_version < 3 and not hasattr(self, "spared"):
            self.spared = True
            self.sd.client_active(self.client_id)
""")],
     """
from net import Net, expect

net = Net(idle=(4, 30))
a = net.client(1, hi=2)
net.run(200)
expect("kept", a.alive(), True)
""")

seed("c19-capacity-clientless", "C19",
     "a total client limit, with connections that have not finished their "
     "handshake",
     "the limit is compared with the clients which completed their handshake "
     "only",
     [("paf/server.py",
       "        return len(self.clientless_connections) + "
       "len(self.client_connections)\n",
       "        return max(len(self.clientless_connections),\n"
       "                   len(self.client_connections))\n")],
     """
from net import Net, expect

net = Net(total={"clients": 2})
a = net.client(1)
b = net.join()
c = net.join()
expect("held", [p.conn is not None for p in (a, b, c)],
       [True, True, False])
""")

seed("c20-same-operand", "C20",
     "an and or an or whose only operands are the same expression",
     "an operand equal to the one before it is dropped, so such a filter is "
     "refused or changed",
     [("paf/filter.py",
       """            state.skip()
            operands.append(_parse(state))
            state.expect(END_EXPR)
        elif""",
       """            state.skip()
            operand = _parse(state)
            if len(operands) == 0 or str(operand) != str(operands[-1]):
                operands.append(operand)
            state.expect(END_EXPR)
        elif""")],
     """
import os
import sys

sys.path.insert(0, os.getcwd())
import paf.filter as f

for s in ("(&(a=b)(c=d))", "(&(a=b)(a=b))", "(|(x=*)(x=*)(y>3))"):
    try:
        got = str(f.parse(s))
    except f.ParseError as e:
        got = "refused"
    if got != s:
        print("FAILED: %s: %s" % (s, got))
        sys.exit(1)
print("ok")
""")

seed("c20-trailing-space", "C20",
     "an expression followed by blanks",
     "white space after the expression is accepted",
     [("paf/filter.py",
       """    if (len(state) > 0):
        raise""",
       """    if state.data[state.offset:].strip() != "":
        raise""")],
     """
import os
import sys

sys.path.insert(0, os.getcwd())
import paf.filter as f

for s, ok in (("(a=b)", True), ("(a=b) ", False), ("(a=b)x", False)):
    try:
        f.parse(s)
        got = True
    except f.ParseError:
        got = False
    if got != ok:
        print("FAILED: %r: %s" % (s, got))
        sys.exit(1)
print("ok")
""")

seed("c21-escaped-already", "C21",
     "a key, value or substring piece with two special characters in a row",
     "a special character that follows another one is printed unescaped, "
     "being taken for escaped already",
     [("paf/filter.py",
       """            out_str += ESCAPE
""",
       """            if not out_str.endswith(ESCAPE):
                out_str += ESCAPE
""")],
     """
import os
import sys

sys.path.insert(0, os.getcwd())
import paf.filter as f

for value in ("a", "(", "*)", "\\\\*", "a\\\\", "\\\\\\\\", "\\\\=)"):
    s = str(f.Equal("k", value))
    try:
        back = f.parse(s)
    except f.ParseError as e:
        print("FAILED: %r: %s" % (s, e))
        sys.exit(1)
    if not back.match({"k": {value}}) or str(back) != s:
        print("FAILED: %r became %r" % (value, str(back)))
        sys.exit(1)
print("ok")
""")

seed("c22-present-value", "C22",
     "a presence test on a key whose only value is an empty string or zero",
     "a key is present only if it has a value that is not empty or zero",
     [("paf/filter.py",
       "        return self.key in service\n",
       "        return any(service.get(self.key) or ())\n")],
     """
import os
import sys

sys.path.insert(0, os.getcwd())
import paf.filter as f

for props, wanted in (({"a": {"b"}}, True), ({"a": {""}}, True),
                      ({"a": {0}}, True), ({}, False)):
    got = f.parse("(a=*)").match(props)
    if got != wanted:
        print("FAILED: %r: %r" % (props, got))
        sys.exit(1)
print("ok")
""")

seed("c23-announce-head", "C23",
     "a timer that is not the first is removed, or one added ahead of the "
     "others while timers are being processed",
     "while timers are processed, changes of the next timeout are announced "
     "by the earliest timer processed instead of at the end",
     [("paf/timer.py",
       """            self.deque.popleft()
            candidate.handler()

            changed = True

        if changed:
            self.next_timeout_changed()
""",
       """            self.deque.popleft()
            if not changed:
                self.next_timeout_changed()
            candidate.handler()

            changed = True
""")],
     """
import os
import sys
import time

sys.path.insert(0, os.getcwd())
now = [100.0]
time.time = lambda: now[0]
import paf.timer

announced = []


def changed():
    announced.append(m.next_timeout())


m = paf.timer.TimerManager(changed)
m.add(lambda: None, 101)
m.add(lambda: None, 102)
m.add(lambda: None, 110)
now[0] = 103
m.process()
if m.next_timeout() != 110 or announced[-1] != 110:
    print("FAILED: %r, announced %r" % (m.next_timeout(), announced))
    sys.exit(1)
print("ok")
""")

seed("c25-alias-empty", "C25",
     "a domain which gives both sockets and addrs, one of them empty",
     "an empty list of sockets is taken for absent when its alias is given "
     "too",
     [("paf/conf.py",
       """        if dict_key in dict_value:
            if value is not None:
                raise""",
       """        if dict_key in dict_value:
            if value:
                raise""")],
     """
import os
import sys
import types

sys.path.insert(0, os.getcwd())
import logging.handlers
import paf.conf as conf

for domain, ok in (({"sockets": ["ux:a"]}, True),
                   ({"addrs": ["ux:a"]}, True),
                   ({"sockets": ["ux:a"], "addrs": ["ux:b"]}, False),
                   ({"sockets": [], "addrs": ["ux:b"]}, False)):
    c = conf.default()
    try:
        conf.populate(c, {"domains": [domain]})
        got = True
    except conf.Error:
        got = False
    if got != ok:
        print("FAILED: %r: %r" % (domain, got))
        sys.exit(1)
print("ok")
""")

seed("c27-complete-after-notify", "C27",
     "a multi-response transaction completed by the server before it was "
     "accepted",
     "the completion of a listing which was never accepted is delivered",
     [("paf/client.py",
       """               (self.state == TransactionState.ACCEPTED and
""",
       """               (self.state != TransactionState.TERMINATED and
""")],
     """
from peer import install, usual, reply, conns
import sys


def answer(conn, msg):
    if msg["ta-cmd"] == "services":
        return [reply(msg, "complete")]
    return usual(conn, msg)


install(answer)
import paf.client as client

conn = client.connect(client.ServerConf("ux:x"), client_id=1)
try:
    conn.services()
    print("FAILED: delivered")
    sys.exit(1)
except client.ProtocolError:
    print("ok")
""")

seed("c28-fail-without-reason", "C28",
     "a call which the server fails without giving a reason",
     "a failure without a reason is taken for success",
     [("paf/client.py",
       """        if self.result == EventType.FAIL:
            raise TransactionError(reason=self.reason)
""",
       """        if self.result == EventType.FAIL and self.reason is not None:
            raise TransactionError(reason=self.reason)
""")],
     """
from peer import install, usual, reply, conns
import sys


def answer(conn, msg):
    if msg["ta-cmd"] == "unpublish":
        return [reply(msg, "fail")]
    return usual(conn, msg)


install(answer)
import paf.client as client

conn = client.connect(client.ServerConf("ux:x"), client_id=1)
try:
    conn.unpublish(5)
    print("FAILED: no error")
    sys.exit(1)
except client.TransactionError:
    print("ok")
""")

seed("c29-connections-pile-up", "C29",
     "a client which keeps reconnecting before its orphans expire, which "
     "then expire while it is connected",
     "a former connection is kept after the last of its orphans expired, if "
     "the client is connected again",
     [("paf/sd.py",
       """        self.resource_manager.deallocate(self.user_id, ResourceType.SERVICE)

        if connection.is_stale():
""",
       """        self.resource_manager.deallocate(self.user_id, ResourceType.SERVICE)

        if connection.is_stale() and not self.is_connected():
""")],
     """
from net import Net, expect
import gc

net = Net(idle=(30, 30))


def objects():
    gc.collect()
    return sum(1 for o in gc.get_objects()
               if type(o).__module__.startswith("paf."))


def session(i):
    a = net.client(1)
    net.run(5)
    a.publish(i, ttl=2)
    a.leave()


for i in range(20):
    session(i)
before = objects()
for i in range(100, 200):
    session(i)
expect("growth", objects() - before < 50, True)
""")

seed("c30-idle-shared", "C30",
     "two domains with different idle limits in one process",
     "the idle bounds of the domain configured last are used by all domains",
     [("paf/sd.py",
       """        self.idle_min = idle_min
        self.idle_max = idle_max

    def limit""",
       """        IdleLimit.idle_min = idle_min
        IdleLimit.idle_max = idle_max

    def limit""")],
     """
from net import Net, Loop, expect

loop = Loop()
one = Net("ux:one", idle=(4, 10), loop=loop)
two = Net("ux:two", idle=(4, 100), loop=loop)
a = one.client(1)
b = two.client(1)
loop.run(12)
expect("first", a.alive(), False)
expect("second", b.alive(), True)
""")

seed("c31-bounds-inherited", "C31",
     "a JSON domain file that lists several servers, the first of which has "
     "protocol version bounds",
     "protocol version bounds given for a server are also used for the "
     "servers after it",
     [("paf/client.py",
       """    servers = []
    for server_obj in root['servers']:
        server = ServerConf(server_obj['address'])
""",
       """    servers = []
    last = {}
    for server_obj in root['servers']:
        for name in ("minProtocolVersion", "maxProtocolVersion"):
            server_obj.setdefault(name, last.get(name))
            if server_obj[name] is None:
                del server_obj[name]
        last = server_obj
        server = ServerConf(server_obj['address'])
""")],
     """
from peer import install, usual
import json
import os
import sys
import tempfile

install(usual)
import paf.client as client

with tempfile.TemporaryDirectory() as d:
    os.environ["PAF_DOMAINS"] = d
    with open(os.path.join(d, "x"), "w") as f:
        json.dump({"servers": [
            {"address": "ux:a", "maxProtocolVersion": 2},
            {"address": "ux:b"}]}, f)
    got = [(s.addr, s.proto_version_min, s.proto_version_max)
           for s in client.read_domain("x")]
if got != [("ux:a", 2, 2), ("ux:b", 2, 3)]:
    print("FAILED: %r" % got)
    sys.exit(1)
print("ok")
""")

seed("c34-latency-total", "C34",
     "a tracking client with a second query of the server answered",
     "latencies are accumulated instead of replaced",
     [("paf/server.py",
       "            self.track_latency = time.time() - self.track_query_ts\n",
       "            latency = time.time() - self.track_query_ts\n"
       "            self.track_latency = "
       "max(latency, self.track_latency or 0)\n")],
     """
from net import Net, Clock, expect

net = Net(idle=(30, 30))
a = net.client(1)
ta = a.send("track")
lat = []
for delay in (2, 1):
    n = len(a.replies(ta))
    while len(a.replies(ta)) == n:
        net.run(0.5)
    asked = Clock.now
    Clock.now += delay
    a.send("track", "inform", ta=ta, track_type="reply")
    lat.append(a.listing("clients")[0]["latency"])
expect("second below first", lat[1] < lat[0] - 0.3, True)
""")

seed("c38-bounds-intersect", "C38",
     "-p together with a domain whose server has version bounds of its own "
     "that leave the version out",
     "-p only narrows the bounds the domain file gives",
     [("paf/client.py",
       """        self.proto_version_min = proto_version
        self.proto_version_max = proto_version


class Client:""",
       """        self.proto_version_min = max(proto_version, self.proto_version_min)
        self.proto_version_max = min(proto_version, self.proto_version_max)


class Client:""")],
     """
import json
import os
import tempfile
from shell import pafc

with tempfile.TemporaryDirectory() as d:
    with open(os.path.join(d, "x"), "w") as f:
        json.dump({"servers": [{"address": "ux:a",
                                "maxProtocolVersion": 2}]}, f)
    rc, out, addrs, sent = pafc(["-p", "3", "x"], ["quit"],
                                env={"PAF_DOMAINS": d})
print(out, sent)
assert [(m["protocol-minimum-version"], m["protocol-maximum-version"])
        for m in sent if m["ta-cmd"] == "hello"] == [(3, 3)]
""")

seed("c35-zero-ttl", "C35",
     "a notification of a service whose TTL or generation is zero",
     "a generation of zero is not printed",
     [("app/pafc",
       """            if generation is not None:
                info""",
       """            if generation:
                info""")],
     """
from shell import pafc

rc, out, addrs, sent = pafc(["ux:x"], ["subscribe", "ping", "quit"], extra=
    '{"subscribe": [["accept", {}], ["notify", {"match-type": "appeared", '
    '"service-id": 5, "generation": 0, "service-props": {}, "ttl": 0, '
    '"client-id": 9}]]}')
print(out)
assert "Generation: 0" in out and "TTL: 0" in out
""")

seed("c35-rest-ignored", "C35",
     "an unpublish line with something after the id",
     "whatever follows the id is ignored and the service unpublished",
     [("app/pafc",
       """            service_id = parse_id(line)
            self.worker.cmd_unpublish""",
       """            service_id = parse_id((line.split() or [""])[0])
            self.worker.cmd_unpublish""")],
     """
from shell import pafc

rc, out, addrs, sent = pafc(["ux:x"], ["unpublish 5", "unpublish 6 x", "ping",
                                       "quit"])
got = [m["service-id"] for m in sent if m["ta-cmd"] == "unpublish"]
print(got, out)
assert got == [5]
""")

seed("c33-nonblock-attrs", "C33",
     "connect with the non-blocking flag and attributes at the same time",
     "the flag is ignored if any attributes are given",
     [("paf/xcm.py",
       """        if flags == NONBLOCK:
""",
       """        if flags == NONBLOCK and not attrs:
""")],
     """
from libxcm import binding, calls, results, expect

results["xcm_connect_a"] = 77
results["xcm_attr_map_create"] = 5


def added(**kwargs):
    del calls[:]
    binding.connect("ux:x", **kwargs)
    return [c[2] for c in calls if "attr_map_add" in c[0]]


expect("flag", added(flags=binding.NONBLOCK), [b"xcm.blocking"])
expect("both", sorted(added(flags=binding.NONBLOCK,
                            attrs={"tls.cert_file": "a"})),
       [b"tls.cert_file", b"xcm.blocking"])
""")

seed("c26-zero-keeps", "C26",
     "-c 0 with a file that limits the clients",
     "a client limit of zero on the command line leaves the file's limit",
     [("paf/daemon.py",
       """                if clients == 0:
                    conf.resources.total.clear_limit("clients")
                else:
                    conf""",
       """                if clients != 0:
                    conf""")],
     """
import os
import sys
import tempfile
import types

sys.path.insert(0, os.getcwd())
sys.modules["paf.xcm"] = types.ModuleType("paf.xcm")
sys.modules["paf.xcm"].error = OSError
import paf
paf.xcm = sys.modules["paf.xcm"]
import logging.handlers
import paf.logging
import paf.daemon

started = []
paf.daemon.run = lambda conf, hook=None: started.append(conf)
paf.logging.configure = lambda *args, **kwargs: None
with tempfile.NamedTemporaryFile("w", suffix=".yaml") as f:
    f.write("domains: [{sockets: ['ux:a']}]\\n"
            "resources: {total: {clients: 7}}\\n")
    f.flush()
    for c, wanted in (("3", 3), ("0", None)):
        paf.daemon.main(["pafd", "-n", "-f", f.name, "-c", c])
        got = started[-1].resources.total.get_client_limit()
        if got != wanted:
            print("FAILED: -c %s: %r" % (c, got))
            sys.exit(1)
print("ok")
""")

seed("c24-latest", "C24",
     "two sources with timeouts",
     "the loop waits until the latest of the timeouts",
     [("paf/eventloop.py",
       """            left = timeouts[0] - time.time()
""",
       """            left = timeouts[-1] - time.time()
""")],
     """
import os
import sys
import time

sys.path.insert(0, os.getcwd())
time.time = lambda: 100.0
import paf.eventloop as eventloop

loop = eventloop.EventLoop()
for t in (105, 107):
    source = eventloop.Source()
    source.set_timeout(t)
    loop.add(source, lambda: None)
print(loop.next_relative_timeout())
assert loop.next_relative_timeout() == 5
""")


LOGDEMO = """
import os
import socket
import sys
import tempfile
import shutil
import io

sys.path.insert(0, os.getcwd())
scratch = tempfile.mkdtemp(prefix="demo-")
name = os.path.join(scratch, "log")
console = io.StringIO()
sys.stderr = console
import paf.logging as log

failed = None
try:
%s
finally:
    sys.stderr = sys.__stderr__
    shutil.rmtree(scratch)
if failed is not None:
    print("FAILED: " + failed)
    sys.exit(1)
print("ok")
"""

seed("c39-file-level", "C39",
     "logging to a file at level debug",
     "messages of level debug are not written to the log file",
     [("paf/logging.py",
       """        add_handler(file_handler)
""",
       """        file_handler.setLevel(max(filter_level, logging.INFO))
        add_handler(file_handler)
""")],
     LOGDEMO % """    log.configure(False, name, 0, 0, False, filter_level=10)
    log.debug("one", log.LogCategory.CORE)
    log.info("two", log.LogCategory.CORE)
    if open(name).read() != "one\\ntwo\\n":
        failed = "wrong content"
""")

seed("c39-console-beside-file", "C39",
     "logging to a file without console logging",
     "the console keeps being logged to where a log file is used",
     [("paf/logging.py",
       """    if not console:
""",
       """    if not console and log_file is None:
""")],
     LOGDEMO % """    log.configure(False, name, 0, 0, False, filter_level=20)
    log.info("two", log.LogCategory.CORE)
    if open(name).read() != "two\\n":
        failed = "wrong content"
    if console.getvalue() != "":
        failed = "logged to the console"
""")

seed("c39-own-socket-unchecked", "C39",
     "a system log socket other than the default which does not exist",
     "only the default system log socket is verified to exist",
     [("paf/logging.py",
       """        if not os.path.exists(syslog_socket):
""",
       """        if syslog_socket == '/dev/log' and \\
           not os.path.exists(syslog_socket):
""")],
     LOGDEMO % """    try:
        log.configure(False, None, 0, 0, True, name + "-missing")
        failed = "started without its log socket"
    except FileNotFoundError:
        pass
""")

IDLE = """
from net import Net, expect


def woken(net, period):
    calls = []

    def counted(handler):
        def call():
            calls.append(1)
            handler()
        return call

    for source, handler in list(net.loop.sources.items()):
        net.loop.sources[source] = counted(handler)
    net.run(period)
    return len(calls)

"""

seed("c40-clean-out-ticks", "C40",
     "a client that stays connected after its handshake",
     "the scan for half-open connections is scheduled again every second as "
     "long as anybody is connected",
     [("paf/server.py",
       """        if len(self.clientless_connections) > 0 and \\
           self.clean_out_timer is None:
""",
       """        if self.num_connections() > 0 and \\
           self.clean_out_timer is None:
""")],
     IDLE + """
net = Net(idle=(4000, 4000))
a = net.client(1)
a.publish(1)
net.run(5)
expect("wake-ups", woken(net, 600) < 10, True)
b = net.join()
net.run(5)
expect("half-open dropped", b.alive(), False)
""")

seed("c40-orphan-recheck", "C40",
     "an orphan with a long time to live",
     "the time of an orphan's removal is checked every other second instead "
     "of once",
     [("paf/sd.py",
       """    def orphan_timeout(self, service_id):
        del self.orphan_timers[service_id]
        self.purge_orphan(service_id)
""",
       """    def orphan_timeout(self, service_id):
        del self.orphan_timers[service_id]
        service = self.db.get_service(service_id)
        if service.orphan_timeout() > time.time():
            # clock changed while waiting
            self.add_orphan_timer(service)
            return
        self.purge_orphan(service_id)
"""),
      ("paf/sd.py",
       """        timer = self.timer_manager.add(handler, service.orphan_timeout())
""",
       """        # cope with clock adjustments
        timeout = min(service.orphan_timeout(), time.time() + 2)
        timer = self.timer_manager.add(handler, timeout)
""")],
     IDLE + """
net = Net(idle=(4000, 4000))
a = net.client(1)
a.publish(1, ttl=100)
net.run(5)
a.leave()
expect("wake-ups", woken(net, 90) < 10, True)
b = net.client(2)
expect("still there", len(b.listing()), 1)
net.run(15)
expect("removed", len(b.listing()), 0)
""")

seed("c40-sendable-for-subscribers", "C40",
     "a client with an active subscription",
     "the process wakes up continuously, since a subscriber's connection is "
     "always waited for to become sendable",
     [("paf/server.py",
       """        condition = 0
        if self.sendable():
            condition |= xcm.SO_SENDABLE
        if self.receivable():
""",
       """        condition = 0
        if self.sendable() or (self.client_id is not None and
                               len(self.sub_tas) > 0):
            condition |= xcm.SO_SENDABLE
        if self.receivable():
""")],
     IDLE + """
net = Net(idle=(4000, 4000))
a = net.client(1)
b = net.client(2)
b.publish(1)
expect("wake-ups", woken(net, 60) < 10, True)
a.send("subscribe", subscription_id=7, settle=False)
for i in range(1000):
    ready = [s for s in net.loop.sources
             if s.fd is not None and a.conn.fd == s.fd and a.conn.ready()]
    if not ready:
        break
    net.loop.sources[ready[0]]()
expect("comes to rest", i < 900, True)
""")

seed("c18-keepalive-off", "C18",
     "a version 2 client over TCP or TLS",
     "the keepalive of the transport is switched off for version 2 "
     "connections, too, so nothing notices when such a peer dies",
     [("paf/server.py",
       """        if self.proto_version >= 3 and tp in ("tls", "tcp"):
""",
       """        if self.proto_version >= proto.MIN_VERSION and \\
           tp in ("tls", "tcp"):
""")],
     """
from net import Net, Conn, expect

log = []
Conn.set_attr = lambda self, name, value: log.append((name, value))
net = Net()
a = net.client(1, addr="tcp:10.0.0.1:5000", lo=2, hi=2)
expect("switched off", ("tcp.keepalive", False) in log, False)
""")
