"""The checks that exist, by property."""
import importlib, os

MODULES = ("c_server", "c_pool", "c_dispatch", "c_client", "c_value", "c_tls", "c_reactor", "c_misc")
HERE = os.path.dirname(os.path.abspath(__file__))

TECH = "TLA+ (TLC): model checking of %s; scenarios generated from the specification are replayed on the real code and the recorded traces validated against %s"
SPECS = {
    "S10": ("PoolServer.tla (safety and liveness of stop, workers and loop)", "TraceService.tla, under every single forced thread switch of small programs"),
    "C01": ("PoolServer.tla (queue, workers, wake-ups, loop)", "TraceService.tla, under every single forced thread switch of small programs"),
    "C03": ("OrderImpl.tla (loop, workers and a stopping thread sharing queue, table, flag and connections) watched by the happens-before monitor Order.tla",
            "TraceOrder.tla, over recorded memory accesses and synchronisation"),
    "C02": ("PoolServer.tla (pool destruction)", "TracePool.tla, under every single forced thread switch of small programs"),
    "D01": ("DispatchImpl.tla as a refinement of Dispatch.tla (method lookup)", "TraceDispatch.tla"),
    "D02": ("DispatchImpl.tla as a refinement of Dispatch.tla (interceptor stacks)", "TraceDispatch.tla"),
    "D03": ("DispatchImpl.tla as a refinement of Dispatch.tla (faults and exceptions)", "TraceDispatch.tla and TraceService.tla"),
    "D04": ("XHeadersImpl.tla as a refinement of XHeaders.tla", "TraceXHeaders.tla"),
    "K": ("ClientImpl.tla as a refinement of ClientCall.tla", "TraceClient.tla"),
    "V01": ("XmlRpc.tla over all small value shapes (GenValue.tla: round trip, unique reading)", "TraceXml.tla"),
    "V02": ("XmlRpc.tla, the XML-RPC grammar as a machine over XML tokens (GenXml.tla enumerates its documents and their neighbours)", "TraceXml.tla"),
    "V03": ("HeapImpl.tla (ownership of objects) as a refinement of ValueHeap.tla", "TraceHeap.tla"),
    "V04": ("Codec.tla (GenCodec.tla: the laws of base64 and dates)", "TraceXml.tla"),
    "V05": ("XmlRpc.tla with entity declarations and references", "TraceXml.tla"),
    "T01": ("Tls.tla; TlsImpl.tla refines it; GenTls.tla", "TraceTls.tla (server side), TraceTlsCall.tla (client side)"),
    "T02": ("Service.tla over TLS; ServerImpl.tla refines it; GenService.tla with TLS peers", "TraceService.tla"),
    "E01": ("ReactorImpl.tla watched by the observer Reactor.tla; GenReactor.tla generates the programs of handlers and their users", "TraceReactor.tla"),
    "R01": ("FdImpl.tla (ownership of descriptor numbers)", "TraceFds.tla (servers until their destruction) and TraceClient.tla (clients)"),
    "N01": ("AddressImpl.tla (threads sharing a remembered lookup) watched by Address.tla; GenAddress.tla generates programs and resolver answers", "TraceAddress.tla"),
    "L01": ("LogImpl.tla (threads writing to one stream) watched by Log.tla; GenLog.tla", "TraceLog.tla"),
    "P01": ("ParallelImpl.tla (threads sharing tables and buffers or not) watched by Parallel.tla; GenParallel.tla generates the programs", "TraceParallel.tla"),
    "S": ("ServerImpl.tla as a refinement of Service.tla", "TraceService.tla"),
}
NOTE = "The model is checked exhaustively within the bounds given in DESIGN.md. The implementation is bound to it by replayed scenarios and " \
       "validated traces under a deterministic scheduler with seeded schedules, so the code itself is covered by exploration, not exhaustively."


def load():
    c = {}
    for m in MODULES:
        if os.path.exists(os.path.join(HERE, m + ".py")):
            c.update(importlib.import_module(m).CHECKS)
    return c


def describe(pid):
    a, b = SPECS.get(pid) or SPECS[pid[0]]
    return TECH % (a, b), NOTE
