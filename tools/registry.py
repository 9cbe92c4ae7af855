"""Which monitored workloads decide which property."""


def part(pkg, test, **kw):
    return dict(pkg=pkg, test=test, **kw)


FAKE = "the workload runs under the Go runtime's virtual clock (testing/synctest); upstream is an in-memory transport"
ORACLE = "the oracle reads Cache-Control, Age, Date and Expires as RFC 9111 says, ages in whole seconds (either outcome is accepted within that second)"

PROPS = {}
for _id in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17"]:
    PROPS[_id] = dict(parts=[part("httpc", "Test" + _id)], assumptions=[FAKE, ORACLE])
PROPS["C15"]["parts"].append(part("srv", "TestC15Srv"))
PROPS["C17"]["parts"].append(part("srv", "TestC17Tunnel"))
PROPS["C37"] = dict(parts=[part("httpc", "TestC37")], assumptions=[FAKE])

REF = "the reference model accounts an item as its bytes plus 24"
MINI = "redis is the in-process miniature server of go.mod (miniredis), whose expiry, pattern and error behaviour stands for the real one"
PROPS["C18"] = dict(parts=[part("prov", "TestC18")], assumptions=[REF])
PROPS["C19"] = dict(parts=[part("prov", "TestC19"), part("prov", "TestC19", race=True)], assumptions=[
    "schedules are those of the Go scheduler on 8 cores, widened by yields in the remote tier", "a multi-key purge or flush is atomic per key only"])
PROPS["C20"] = dict(parts=[part("prov", "TestC20")], assumptions=[FAKE.split(";")[0], MINI, "at the very instant of expiry either outcome is accepted"])
PROPS["C21"] = dict(parts=[part("prov", "TestC21")], assumptions=[MINI, "keys are free of line breaks (they are URLs)"])
PROPS["C22"] = dict(parts=[part("prov", "TestC22")], assumptions=[MINI, "a store counts as done when the backend holds it: stores to redis are asynchronous",
    "a request that joins an identical one in progress shares that one's lookup"])
PROPS["C23"] = dict(parts=[part("prov", "TestC23")], assumptions=[FAKE.split(";")[0], "the remote tier is an instrumented stand-in"])
PROPS["C24"] = dict(parts=[part("prov", "TestC24", confirm=True)], assumptions=[MINI, "bounds on time are generous wall-clock limits; a breach must reproduce"])
PROPS["C25"] = dict(parts=[part("prov", "TestC25")], assumptions=["contents altered within a complete entry cannot be noticed (there is no checksum)"])

REAL = "real sockets on loopback and real time; time limits are generous, and a breach must reproduce where one decides"
BIN = "the program is built from the tree and run as a process"
PROPS["C26"] = dict(parts=[part("srv", "TestC26")], assumptions=[REAL])
PROPS["C27"] = dict(parts=[part("srv", "TestC27", confirm=True)], assumptions=[REAL])
PROPS["C28"] = dict(parts=[part("srv", "TestC28")], assumptions=["the client address is the connection's, or the last X-Forwarded-For entry if there is one (documented)"])
PROPS["C29"] = dict(parts=[part("srv", "TestC29")], assumptions=["a purge or invalidation without a key is a flush (documented)"])
PROPS["C30"] = dict(parts=[part("srv", "TestC30"), part("srv", "TestC30Proc", bin=True, confirm=True)], assumptions=[REAL, BIN,
    "each reading of the configuration is atomic; a request which straddles a reload may take different settings from before and after it"])
PROPS["C31"] = dict(parts=[part("srv", "TestC31")], assumptions=["the oracle lists what a usable configuration is, field by field"])
PROPS["C33"] = dict(parts=[part("srv", "TestC33", bin=True, confirm=True)], assumptions=[REAL, BIN])
PROPS["C32"] = dict(parts=[part("srv", "TestC32", confirm=True)], assumptions=[REAL, "the cluster API is a stand-in serving endpoint lists",
    "delivery counts as failed if it has not happened within 20 s (60 s behind stalled peers)"])
PROPS["C34"] = dict(parts=[part("srv", "TestC34", race=True), part("srv", "TestC34Proc", race=True, bin=True)], assumptions=[
    "the race detector sees the accesses of the executions run, whatever their order, but no others"])
PROPS["C35"] = dict(parts=[part("srv", "TestC35")], assumptions=["a request that joins an identical one in progress is shared and counts as neither", "whether HEAD and Cache-Control requests are hits is not decided here, only that counters agree with the upstream traffic"])
PROPS["C36"] = dict(parts=[part("srv", "TestC36", confirm=True)], assumptions=[REAL, "the memory of the redis server is not counted", "live heap after a full collection, tolerance 24 bytes per request"])
PROPS["C38"] = dict(parts=[part("srv", "TestC38", bin=True, confirm=True)], assumptions=[REAL, BIN, MINI,
    "a fetch in progress during a purge or write may be stored after it; stores to redis may take up to 1.5 s",
    "the histories are those of 6 clients, a writer and an operator on 8 cores"])
PROPS["C39"] = dict(parts=[part("srv", "TestC39", bin=True, confirm=True)], assumptions=[REAL, BIN, "Go's HTTP server decides which malformed messages are refused; only their effect is judged"])
PROPS["C40"] = dict(parts=[part("srv", "TestC40", bin=True, confirm=True)], assumptions=[REAL, BIN])
PROPS["C41"] = dict(parts=[part("srv", "TestC41", bin=True, confirm=True)], assumptions=[REAL, BIN, MINI, "operations follow one another: a store is awaited before the next operation"])
