"""Writes spec/columns.json, the documented columns and rows of each parseable format (atop(1), PARSEABLE OUTPUT)."""
import json
import os

TIME = {"timestamp": "R.curtime", "interval": "R.interval"}
PROC = {**TIME, "pid": "T.gen.pid", "name": "text T.gen.name", "state": "text T.gen.state"}


def disk(a):
    p = f"S.dsk.{a}[]."
    return {"rows": f"unnamed S.dsk.{a}[].name", "columns": {
        **TIME, "name": f"text {p}name", "io_ms": p + "io_ms", "reads": p + "nread", "read_sectors": p + "nrsect", "writes": p + "nwrite",
        "write_sectors": p + "nwsect"}}


CORE = {"system": "stime", "user": "utime", "niced": "ntime", "idle": "itime", "wait": "wtime", "irq": "Itime", "softirq": "Stime",
        "steal": "steal", "guest": "guest"}
I = "S.intf.intf[]."
N = "S.net."
DOC = {
    "cpu": {"rows": "count S.cpu.nrcpu of S.cpu.cpu", "columns": {
        **TIME, "ticks": "H.hertz", "proc": "index", **{k: "S.cpu.cpu[]." + v for k, v in CORE.items()}}},
    "CPL": {"rows": "one", "columns": {
        **TIME, "procs": "S.cpu.nrcpu", "load_1": "S.cpu.lavg1", "load_5": "S.cpu.lavg5", "load_15": "S.cpu.lavg15",
        "context_switches": "S.cpu.csw", "interrupts": "S.cpu.devint"}},
    "CPU": {"rows": "one", "columns": {
        **TIME, "ticks": "H.hertz", "procs": "S.cpu.nrcpu", **{k: "S.cpu.all." + v for k, v in CORE.items()}}},
    "DSK": disk("dsk"), "LVM": disk("lvm"), "MDD": disk("mdd"),
    "MEM": {"rows": "one", "columns": {
        **TIME, "page_size": "H.pagesize", "phys_mem": "S.mem.physmem", "free_mem": "S.mem.freemem", "page_cache": "S.mem.cachemem",
        "buffer_cache": "S.mem.buffermem", "slab": "S.mem.slabmem", "dirty_pages": "S.mem.cachedrt"}},
    "NETL": {"rows": "unnamed " + I + "name", "columns": {
        **TIME, "name": f"text {I}name", "pkt_received": I + "rpack", "byte_received": I + "rbyte", "pkt_transmitted": I + "spack",
        "bytes_transmitted": I + "sbyte", "speed": I + "speed", "duplex": f"byte {I}duplex"}},
    "NETU": {"rows": "one", "columns": {
        **TIME, "name": "'upper'", "tcp_pkt_received": N + "tcp.InSegs", "tcp_pkt_transmitted": N + "tcp.OutSegs",
        "udp_pkt_received": f"{N}udpv4.InDatagrams + {N}udpv6.Udp6InDatagrams",
        "udp_pkt_transmitted": f"{N}udpv4.OutDatagrams + {N}udpv6.Udp6OutDatagrams",
        "ip_pkt_received": f"{N}ipv4.InReceives + {N}ipv6.Ip6InReceives",
        "ip_pkt_transmitted": f"{N}ipv4.OutRequests + {N}ipv6.Ip6OutRequests",
        "ip_pkt_delivered": f"{N}ipv4.InDelivers + {N}ipv6.Ip6InDelivers",
        "ip_pkt_forwarded": f"{N}ipv4.ForwDatagrams + {N}ipv6.Ip6OutForwDatagrams"}},
    "PAG": {"rows": "one", "columns": {
        **TIME, "page_size": "H.pagesize", "page_scans": "S.mem.pgscans", "alloc_stalls": "S.mem.allocstall", "swapins": "S.mem.swins",
        "swapouts": "S.mem.swouts"}},
    "PRC": {"rows": "tasks", "columns": {
        **PROC, "ticks": "H.hertz", "user_consumption": "T.cpu.utime", "system_consumption": "T.cpu.stime", "nice": "T.cpu.nice",
        "priority": "T.cpu.prio", "priority_realtime": "T.cpu.rtprio", "policy": "T.cpu.policy", "cpu": "T.cpu.curcpu",
        "sleep": "T.cpu.sleepavg"}},
    "PRD": {"rows": "tasks", "columns": {
        **PROC, "kernel_patch": "flag 2 H.supportflags", "standard_io": "flag 4 H.supportflags", "reads": "T.dsk.rio",
        "read_sectors": "T.dsk.rsz", "writes": "T.dsk.wio", "written_sectors": "T.dsk.wsz", "cancelled_sector_writes": "T.dsk.cwsz"}},
    "PRG": {"rows": "tasks", "columns": {
        **PROC, "real_uid": "T.gen.ruid", "real_gid": "T.gen.rgid", "tgid": "T.gen.pid", "threads": "T.gen.nthr", "exit_code": "T.gen.excode",
        "start_time": "T.gen.btime", "cmd": "text T.gen.cmdline", "ppid": "T.gen.ppid", "running_threads": "T.gen.nthrrun",
        "sleeping_threads": "T.gen.nthrslpi", "dead_threads": "T.gen.nthrslpu", "effective_uid": "T.gen.euid",
        "effective_gid": "T.gen.egid", "saved_uid": "T.gen.suid", "saved_gid": "T.gen.sgid", "filesystem_uid": "T.gen.fsuid",
        "filesystem_gid": "T.gen.fsgid", "elapsed_time": "T.gen.elaps"}},
    "PRM": {"rows": "tasks", "columns": {
        **PROC, "page": "H.pagesize", **{k: f"kib T.mem.{v}" for k, v in {"vsize": "vmem", "rsize": "rmem", "ssize": "shtext",
                                                                         "vgrowth": "vgrow", "rgrowth": "rgrow"}.items()},
        "minor_faults": "T.mem.minflt", "major_faults": "T.mem.majflt"}},
    "PRN": {"rows": "tasks", "columns": {
        **PROC, "kernel_patch": "flag 2 H.supportflags", "tcp_transmitted": "T.net.tcpsnd", "tcp_transmitted_size": "T.net.tcpssz",
        "tcp_received": "T.net.tcprcv", "tcp_received_size": "T.net.tcprsz", "udp_transmitted": "T.net.udpsnd",
        "udp_transmitted_size": "T.net.udpssz", "udp_received": "T.net.udprcv", "udp_received_size": "T.net.udprsz",
        "raw_transmitted": "T.net.rawsnd", "raw_received": "T.net.rawrcv"}},
    "SWP": {"rows": "one", "columns": {
        **TIME, "page_size": "H.pagesize", "swap": "S.mem.totswap", "free_swap": "S.mem.freeswap", "committed_space": "S.mem.committed",
        "committed_limit": "S.mem.commitlim"}},
}

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "columns.json")
    with open(out, "w", encoding="utf-8") as f:
        json.dump({"version": "1.26", "formats": DOC}, f, indent=1)
        f.write("\n")
