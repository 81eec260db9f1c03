"""Diagram spaces and reference computations for packed diagrams."""
import itertools
import math

from mc import dags
from mc import engine

VALS = ["a", "b"]


def with_costs(case, pattern):
  """Gives the k-th edge the k-th cost of a pattern (unless infinite)."""
  edges = []
  m = len(case["edges"])
  for k, e in enumerate(case["edges"]):
    if pattern == "pow":
      c = 2.0 ** k
    elif pattern == "rev":
      c = 2.0 ** (m - k)
    elif pattern == "fine":
      c = 1 + 2.0 ** -30 * ((5 * k) % 7)
    elif pattern == "huge":
      c = 2.0 ** 40 + (3 * k) % 8
    elif pattern == "neg":
      c = [-3, 1, -1, 2, 0, -2, 4, -5][k % 8]
    else:
      c = 1
    edges.append([e[0], e[1], e[2] if e[2] == "inf" else c, e[3], e[4]])
  return dict(case, edges=edges, pattern=pattern)


PLAIN = (0, None, None)
L01 = [PLAIN, (0, 0, "a"), (0, 0, "b"), (0, 1, "a"), (0, 1, "b")]
L012 = [PLAIN, (0, 0, "a"), (0, 1, "b"), (0, 2, "a")]


def pruned(it):
  for case in it:
    live, _ = dags.live_edges(case)
    if live and len(live) == len(case["edges"]):
      yield case


def space(thorough):
  """Pruned diagrams, well ordered or not."""
  yield from pruned(dags.all_dags(2, L01, 3))
  yield from pruned(dags.all_dags(3, L01, 2))
  yield from pruned(dags.all_dags(
      4, L01 if thorough else [L01[0], L01[1], L01[4]], 1,
      orders=("src", "late")))
  yield from pruned(dags.all_dags(
      5, L012, 1, pairs=[(0, 1), (0, 2), (1, 2), (1, 3), (2, 3), (3, 4)]
      + ([(2, 4)] if thorough else [])))
  yield from pruned(dags.all_dags(
      4, L012, 2 if thorough else 1,
      pairs=[(0, 1), (1, 2), (2, 3), (0, 3), (1, 3)]))


def skips(kmax, kmin=4):
  """Chains of decisions with an edge past three or more of them."""
  for k in range(kmin, kmax + 1):
    for i in range(k):
      for j in range(i + 3, k + 1):
        labels = [(None, None)] + [(m, "a") for m in (i, (i + j) // 2, j - 1)]
        for lab in labels:
          e = []
          for s in range(k):
            e.append([s, s + 1, 2, s, "a"])
            if s == i:
              e.append([i, j, 1, lab[0], lab[1]])
          yield {"n": k + 1, "edges": e, "skip": True}


def ordered(it):
  return (c for c in it if dags.ordered_ok(c))


def bellman(packed):
  """Cheapest cost of every complete assignment, from the raw packed edges."""
  table = {}
  best = {0: {(): 0.0}}
  for e in packed.packed_edge_matrix:
    s, d = int(e["source_index"]), int(e["dest_index"])
    k, v = (int(e["required_assignment_key_index"]),
            int(e["required_assignment_value_index"]))
    for a, c in list(best.get(s, {}).items()):
      new = a if k == -1 else a + ((k, v),)
      slot = best.setdefault(d, {})
      slot[new] = min(slot.get(new, math.inf), c + float(e["cost"]))
  for a, c in best.get(packed.num_tagged_states - 1, {}).items():
    engine.same([k for k, _ in a], list(range(packed.num_variable_keys)),
                "decisions along a packed path")
    t = tuple(v for _, v in a)
    table[t] = min(table.get(t, math.inf), c)
  return table


def check_structure(packed, conv, case, real):
  """The documented layout of the packed form."""
  same, ensure = engine.same, engine.ensure
  m = packed.packed_edge_matrix
  nk = packed.num_variable_keys
  eb = [int(x) for x in packed.edge_group_boundary_indices]
  sb = [int(x) for x in packed.state_variable_boundary_indices]
  same(len(eb), 2 * nk + 2, "number of edge group boundaries")
  same(len(sb), nk + 2, "number of state boundaries")
  same((eb[0], eb[-1]), (0, len(m)), "edge group range")
  same((sb[0], sb[-1]), (0, packed.num_tagged_states), "state range")
  ensure(eb == sorted(eb) and sb == sorted(sb), "boundaries not sorted")
  seen_as_source = set()
  for g in range(2 * nk + 1):
    var, assigning = divmod(g, 2)
    for i in range(eb[g], eb[g + 1]):
      e = m[i]
      s, d = int(e["source_index"]), int(e["dest_index"])
      ensure(sb[var] <= s < sb[var + 1], "source in wrong tag range")
      lo = var + assigning
      ensure(sb[lo] <= d < sb[lo + 1], "dest in wrong tag range")
      same(int(e["required_assignment_key_index"]),
           var if assigning else -1, "variable of an edge group")
      ensure(d not in seen_as_source, "edges not in topological order")
      seen_as_source.add(s)
  same(list(conv.variable_keys), dags.keys_of(case), "variable keys")
  same(len(conv.variable_values), packed.num_variable_values, "values")
  same({k: conv.variable_key_index_from_key[k] for k in conv.variable_keys},
       {k: i for i, k in enumerate(conv.variable_keys)}, "key index")
  same({k: conv.variable_value_index_from_value[k]
        for k in conv.variable_values},
       {k: i for i, k in enumerate(conv.variable_values)}, "value index")
  same(len(conv.tagged_edges), len(m), "tagged edges")
  same(len(conv.tagged_states), packed.num_tagged_states, "tagged states")
  used = {}
  for i, (te, e) in enumerate(zip(conv.tagged_edges, m)):
    s, d = int(e["source_index"]), int(e["dest_index"])
    same(conv.tagged_states[s], te.source, "source of a tagged edge")
    same(conv.tagged_states[d], te.dest, "dest of a tagged edge")
    ensure(i in conv.outgoing_edge_indices_for_tagged_state_index[s],
           "edge missing from the outgoing lists")
    if te.required_assignment is not None:
      same((conv.variable_keys[int(e["required_assignment_key_index"])],
            conv.variable_values[int(e["required_assignment_value_index"])]),
           tuple(te.required_assignment), "assignment of a tagged edge")
    else:
      same(int(e["required_assignment_key_index"]), -1, "plain edge")
    if te.info != -1:
      orig = real.edges[te.info]
      used[te.info] = used.get(te.info, 0) + 1
      same((te.source.original_state, te.dest.original_state,
            te.required_assignment, float(e["cost"])),
           (orig.source, orig.dest, orig.required_assignment,
            float(orig.cost)), "packed copy of an edge")
  same(sum(len(x) for x in
           conv.outgoing_edge_indices_for_tagged_state_index), len(m),
       "outgoing lists")
  return used


def reference(case, conv_keys, values, missing):
  """{value index tuple: cost}."""
  idx = {v: i for i, v in enumerate(values)}
  t = dags.assignment_costs(case, conv_keys, values, missing)
  return {tuple(idx[v] for v in a): c for a, c in t.items()}


def all_tuples(nk, nv):
  return itertools.product(range(nv), repeat=nk)
