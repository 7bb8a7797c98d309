"""Semantics of the message passing operations, as a small transition system.

`World` holds, for `size` ranks, the pending operation of every rank and all
messages under way. `events()` lists the completions that are possible now;
`fire(event)` performs one. Two buffering modes span what the MPI standard
allows: 'eager' (a standard send and the sending side of a collective return at
once) and 'rendezvous' (a standard send waits for its receive and a collective
for everybody). A correct program finishes with the same results for all
orders of events in both modes.

`held_back` defines policies which systematically delay a rank, a sender or a channel.
"""


class MPIError(RuntimeError):
    pass


ANY = -1
NULL = -2


class World:
    def __init__(self, size, mode="eager"):
        self.size, self.mode = size, mode
        self.pending = {}  # rank -> op
        self.msgs = []  # in flight, in order of posting
        self.recvs = []  # posted receives, in order of posting
        self.requests = {}  # rid -> [rank, done, result]
        self.nreq = 0
        self.mid = 0
        self.colls = {}  # (cid, seq) -> {rank: (name, root, payload, meta)}
        self.coll_group = {}
        self.coll_seq = {}  # (rank, cid) -> next sequence number

    # ---- posting -----------------------------------------------------
    def post(self, rank, op):
        """Rank calls op. Returns (True, result) if it returns at once."""
        kind = op[0]
        if kind == "send":
            _, cid, dest, tag, knd, payload, mode = op
            self.mid += 1
            m = dict(id=self.mid, src=rank, dst=dest, cid=cid, tag=tag, kind=knd, payload=payload, block=None, rid=None)
            self.msgs.append(m)
            if mode == "imm":
                rid = self._req(rank)
                if self.mode == "eager":
                    self.requests[rid][1] = True
                else:
                    m["rid"] = rid
                return True, rid
            if mode == "buf" or (mode == "std" and self.mode == "eager"):
                return True, None
            m["block"] = rank
            self.pending[rank] = op
            return False, None
        if kind == "recv":
            _, cid, source, tag, knd, mode = op
            self.mid += 1
            r = dict(id=self.mid, rank=rank, cid=cid, source=source, tag=tag, kind=knd, rid=None)
            if source == NULL:
                return True, None
            self.recvs.append(r)
            if mode == "imm":
                r["rid"] = self._req(rank)
                return True, r["rid"]
            self.pending[rank] = op
            return False, None
        if kind == "coll":
            _, cid, group, name, root, payload, meta, imm = op
            seq = self.coll_seq.get((rank, cid), 0)
            self.coll_seq[(rank, cid)] = seq + 1
            key = (cid, seq)
            self.coll_group[key] = group
            entry = self.colls.setdefault(key, {})
            for r, (n2, root2, _, meta2) in entry.items():
                if n2 != name or root2 != root or meta2 != meta:
                    raise MPIError(
                        "collective mismatch: call number %d is %s(root=%s, %s) on rank %d but %s(root=%s, %s) on rank %d"
                        % (seq, n2, root2, meta2, r, name, root, meta, rank)
                    )
            entry[rank] = (name, root, payload, meta)
            if imm:
                rid = self._req(rank)
                self.pending_imm = getattr(self, "pending_imm", {})
                self.pending_imm[rid] = key
                return True, rid
            if self.mode == "eager" and self._coll_local(name, root, group, rank):
                return True, self._coll_result(key, rank)
            self.pending[rank] = ("coll", key)
            return False, None
        if kind == "update":
            # The program changed the buffer of an operation which is not completed.
            _, rid, payload = op
            for m in self.msgs:
                if m["rid"] == rid:
                    m["payload"] = payload
            key = getattr(self, "pending_imm", {}).get(rid)
            if key is not None and self.mode != "eager" and not self.requests[rid][1]:
                name, root, old, meta = self.colls[key][rank]
                if old is not None:
                    self.colls[key][rank] = (name, root, payload, meta)
            return True, None
        if kind == "wait":
            q = self.requests[op[1]]
            self._imm_coll(op[1])
            if q[1]:
                return True, q[2]
            self.pending[rank] = op
            return False, None
        if kind == "test":
            self.pending[rank] = op
            return False, None
        if kind in ("probe", "iprobe"):
            self.pending[rank] = op
            return False, None
        raise MPIError("unknown operation %r" % (kind,))

    def _req(self, rank):
        self.nreq += 1
        self.requests[self.nreq] = [rank, False, None]
        return self.nreq

    def _imm_coll(self, rid):
        key = getattr(self, "pending_imm", {}).get(rid)
        if key is not None and len(self.colls[key]) == len(self.coll_group[key]):
            self.requests[rid][1:] = [True, self._coll_result(key, self.requests[rid][0])]

    @staticmethod
    def _coll_local(name, root, group, rank):
        """May this rank leave the collective without waiting for others?"""
        me = group.index(rank)
        if len(group) == 1:
            return True
        if name in ("bcast", "Bcast", "scatter", "Scatter"):
            return me == root
        if name in ("reduce", "Reduce", "gather", "Gather", "Gatherv"):
            return me != root
        return False

    def _coll_ready(self, key, rank):
        group, entry = self.coll_group[key], self.colls[key]
        name, root = entry[rank][0], entry[rank][1]
        if len(entry) == len(group):
            return True
        if self.mode == "eager" and name in ("bcast", "Bcast", "scatter", "Scatter"):
            return group[root] in entry
        return False

    def _coll_result(self, key, rank):
        group, entry = self.coll_group[key], self.colls[key]
        name, root, _, _ = entry[rank]
        me = group.index(rank)
        if name in ("bcast", "Bcast"):
            return entry[group[root]][2]
        if name in ("scatter", "Scatter"):
            return entry[group[root]][2][me]
        if name in ("gather", "reduce", "Reduce", "Gather", "Gatherv"):
            return [entry[r][2] for r in group] if me == root else None
        if name in ("allgather", "allreduce", "Allreduce", "Allgather", "Allgatherv", "scan", "exscan"):
            if len(entry) < len(group):
                raise MPIError("incomplete collective")
            return [entry[r][2] for r in group]
        if name == "alltoall":
            return [entry[r][2][me] for r in group]
        if name == "dup":
            return key
        if name == "split":
            return key, [entry[r][2] for r in group]
        return None

    # ---- completions -------------------------------------------------
    def _match(self, r):
        """Messages that receive r can match now: first one per source."""
        # a receive posted earlier by the same rank takes precedence
        found, seen = [], set()
        for m in self.msgs:
            if m["dst"] != r["rank"] or m["cid"] != r["cid"] or m["src"] in seen:
                continue
            if r["source"] not in (ANY, m["src"]) or r["tag"] not in (ANY, m["tag"]):
                continue
            seen.add(m["src"])
            earlier = any(
                q["id"] < r["id"]
                and q["rank"] == r["rank"]
                and q["cid"] == m["cid"]
                and q["source"] in (ANY, m["src"])
                and q["tag"] in (ANY, m["tag"])
                for q in self.recvs
            )
            if not earlier:
                found.append(m)
        return found

    def events(self):
        ev = []
        for r in self.recvs:
            for m in self._match(r):
                ev.append(("deliver", r["rank"], r["id"], m["id"]))
        groups = set()
        for rank in sorted(self.pending):
            op = self.pending[rank]
            if op[0] == "coll" and self._coll_ready(op[1], rank):
                if self.mode == "rendezvous":
                    if op[1] not in groups:
                        groups.add(op[1])
                        ev.append(("coll", -1, op[1], None))
                else:
                    ev.append(("coll", rank, op[1], None))
            elif op[0] == "wait":
                self._imm_coll(op[1])
                if self.requests[op[1]][1]:
                    ev.append(("ready", rank, op[1], None))
            elif op[0] == "test":
                self._imm_coll(op[1])
                ev.append(("test", rank, op[1], None))
            elif op[0] in ("probe", "iprobe"):
                probe = dict(id=10**18, rank=rank, cid=op[1], source=op[2], tag=op[3])
                ms = self._match(probe)
                for m in ms:
                    ev.append(("probe", rank, m["id"], None))
                if op[0] == "iprobe":  # a message may always be late
                    ev.append(("probe", rank, None, None))
        return ev

    def held_back(self, ev, policy):
        """Is this completion one that the policy puts off as long as anything else is possible?"""
        kind, rank, x, y = ev
        if policy[0] == "reverse" or kind not in ("deliver", "coll"):
            return False
        if policy[0] == "slow":
            return rank == policy[1]
        if kind == "deliver":
            src = next(m["src"] for m in self.msgs if m["id"] == y)
        else:
            name, root = next(iter(self.colls[x].values()))[:2]
            src = self.coll_group[x][root] if name in ("bcast", "Bcast", "scatter", "Scatter") else None
        return src == policy[1] and (policy[0] == "mute" or rank == policy[2])

    def fire(self, ev):
        """Perform the event; returns [(rank, result)] of calls that return."""
        kind, rank, x, y = ev
        out = []
        if kind == "deliver":
            r = next(q for q in self.recvs if q["id"] == x)
            m = next(q for q in self.msgs if q["id"] == y)
            if r["kind"] != m["kind"]:
                raise MPIError("receive of a %s matches a send of a %s" % (r["kind"], m["kind"]))
            self.recvs.remove(r)
            self.msgs.remove(m)
            res = (m["src"], m["tag"], m["payload"])
            if r["rid"] is None:
                del self.pending[rank]
                out.append((rank, res))
            else:
                self.requests[r["rid"]][1:] = [True, res]
            if m["block"] is not None:
                del self.pending[m["block"]]
                out.append((m["block"], None))
            if m["rid"] is not None:
                self.requests[m["rid"]][1] = True
        elif kind == "coll":
            for r in sorted(self.pending):
                op = self.pending[r]
                if op == ("coll", x) and rank in (-1, r):
                    out.append((r, self._coll_result(x, r)))
            for r, _ in out:
                del self.pending[r]
        elif kind == "ready":
            del self.pending[rank]
            out.append((rank, self.requests[x][2]))
        elif kind == "test":
            del self.pending[rank]
            out.append((rank, (self.requests[x][1], self.requests[x][2])))
        elif kind == "probe":
            del self.pending[rank]
            m = next((q for q in self.msgs if q["id"] == x), None)
            out.append((rank, None if m is None else (m["src"], m["tag"], len(m["payload"]))))
        return out


class LocalClient:
    """One rank, in this process."""

    rank, size = 0, 1

    def __init__(self):
        self.world = World(1)

    def reset(self):
        self.world = World(1)

    def call(self, op):
        done, res = self.world.post(0, op)
        while not done:
            ev = self.world.events()
            if not ev:
                self.world = World(1)
                raise MPIError("deadlock: a single rank waits for a message nobody sends")
            for r, value in self.world.fire(ev[0]):
                if r == 0:
                    done, res = True, value
        return res


client = LocalClient()
