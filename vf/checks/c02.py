"""C02: trees stay well formed through any mutation history."""
import numpy as np

from vf import gen, oracle, work
from vf.core import Part

RULE = ("one case = one data set and mutation regime; after every structural step the whole tree is compared with what its rules and "
        "the training rows imply; a state is a distinct tree structure with at least one split")
ASSUMPTIONS = ["covariates are finite"]


def ids(nodes):
    return sorted(id(n) for n in nodes)


def check_tree(case, tree, X, nonempty=True):
    from bartpy.node import DecisionNode, LeafNode
    nodes = list(tree.nodes)
    case.check(len(set(map(id, nodes))) == len(nodes), "a node is listed twice")
    children = {id(c) for n in nodes for c in (n.left_child, n.right_child) if c is not None}
    roots = [n for n in nodes if id(n) not in children]
    case.check(len(roots) == 1, "the tree has %d roots" % len(roots))
    root = roots[0]
    reach = oracle.reachable(root)
    case.check(ids(reach) == ids(nodes), "the node list is not the set of nodes reachable from the root",
               listed=len(nodes), reachable=len(reach))
    case.check(root.depth == 0, "the root is not at depth 0", depth=root.depth)
    walk = None
    for n in nodes:
        kids = (n.left_child, n.right_child)
        case.check((kids[0] is None) == (kids[1] is None), "a node has one child")
        if kids[0] is None:
            case.check(isinstance(n, LeafNode), "a node without children is not a leaf")
            continue
        case.check(isinstance(n, DecisionNode), "a node with children is not a decision node")
        case.check(kids[0] is not kids[1], "both children are the same node")
        case.check(all(k.depth == n.depth + 1 for k in kids), "a child is not one level deeper",
                   depth=n.depth, children=[k.depth for k in kids])
        a, b = kids[0].split.most_recent_split_condition(), kids[1].split.most_recent_split_condition()
        case.check(a is not None and b is not None, "a child has no split condition")
        case.check(a.splitting_variable == b.splitting_variable and a.splitting_value == b.splitting_value,
                   "the children do not share one threshold on one variable", left=str(a), right=str(b))
        v, t = oracle.rule(n)
        case.check((v, t) == (int(a.splitting_variable), float(a.splitting_value)), "the node's rule differs from its children's")
    case.equal(ids(tree.leaf_nodes), ids([n for n in nodes if oracle.is_leaf(n)]), "the leaf view is wrong")
    case.equal(ids(tree.decision_nodes), ids([n for n in nodes if not oracle.is_leaf(n)]), "the decision node view is wrong")
    prunable = [n for n in nodes if not oracle.is_leaf(n) and oracle.is_leaf(n.left_child) and oracle.is_leaf(n.right_child)]
    case.equal(ids(tree.prunable_decision_nodes), ids(prunable), "the prunable view is wrong")
    walk = oracle.rows_by_walk(root, X)
    for n in nodes:
        got = np.asarray(n.split.condition())
        case.equal(got, walk[id(n)], "a node's training rows are not those its path selects", depth=n.depth)
        if not oracle.is_leaf(n):
            l, r = np.asarray(n.left_child.split.condition()), np.asarray(n.right_child.split.condition())
            case.check(not np.any(l & r) and np.array_equal(l | r, got), "a node's rows are not the disjoint union of its children's")
            if nonempty:
                case.check(l.any() and r.any(), "a child made by sampling is empty")
    split = [n for n in nodes if oracle.is_leaf(n) and oracle.splittable_columns(X[walk[id(n)]])]
    case.equal(ids(tree.splittable_leaf_nodes), ids(split), "the splittable-leaf view is wrong")
    for n in nodes:
        if oracle.is_leaf(n):
            case.equal(bool(n.is_splittable()), any(n is m for m in split), "is_splittable is wrong")
    s = oracle.tree_shape(tree)
    if s[0] == "D":
        case.seen(oracle.structure(s))
        case.count("split_trees")
    return root


def refused(case, tree):
    """Illegal mutations must be rejected and leave the tree alone."""
    from bartpy.mutation import GrowMutation, PruneMutation
    from bartpy.node import LeafNode
    before = oracle.tree_shape(tree)
    for n in list(tree.decision_nodes):
        if not (oracle.is_leaf(n.left_child) and oracle.is_leaf(n.right_child)):
            case.raises(TypeError, lambda: PruneMutation(n, LeafNode(n.split, depth=n.depth)),
                        "pruning a node that does not have two leaf children is not refused")
            case.count("refused")
        case.raises(TypeError, lambda: GrowMutation(n, n), "growing a decision node is not refused")
        case.count("refused")
    for n in list(tree.leaf_nodes)[:3]:
        case.raises(TypeError, lambda: PruneMutation(n, LeafNode(n.split, depth=n.depth)), "pruning a leaf is not refused")
        case.count("refused")
    case.equal(oracle.tree_shape(tree), before, "a refused mutation changed the tree")


def live(case):
    def cb(tree, X, stage, model):
        if stage == "rejected" and case.rng.uniform() < 0.5:
            return
        if len(X) > 200 and case.rng.uniform() < 0.4:
            return
        check_tree(case, tree, X)
        if case.rng.uniform() < 0.1:
            refused(case, tree)
    work.drive(case, cb)


def replace_leaf(s, path, new):
    if not path:
        return new
    s = list(s)
    i = 3 if path[0] == 0 else 4
    s[i] = replace_leaf(s[i], path[1:], new)
    return tuple(s)


def at(s, path):
    for p in path:
        s = s[3] if p == 0 else s[4]
    return s


def paths(s, want, pre=()):
    out = [pre] if want(s) else []
    if s[0] == "D":
        out += paths(s[3], want, pre + (0,)) + paths(s[4], want, pre + (1,))
    return out


def node_at(root, path):
    for p in path:
        root = root.left_child if p == 0 else root.right_child
    return root


def shadow(case):
    """Model-based: every operation is mirrored on a plain nested tuple and the two are compared."""
    rng = case.rng
    X, y, d = gen.splittable_dataset(rng)
    if len(X) > 200:
        X, y = X[:200], y[:200]
    case.describe(**d)
    tree = gen.single_tree(X, y)
    sh = ("L",)
    history = []
    n_ops = int(rng.choice([10, 40, 120, 120, 250]))
    bias = rng.choice([0.2, 0.4, 0.5])
    for _ in range(n_ops):
        root = oracle.root_of(tree)
        walk = oracle.rows_by_walk(root, X)
        growable = [p for p in paths(sh, lambda s: s[0] == "L")
                    if oracle.splittable_columns(X[walk[id(node_at(root, p))]])]
        prunable = paths(sh, lambda s: s[0] == "D" and s[3][0] == "L" and s[4][0] == "L")
        if prunable and (not growable or rng.uniform() < bias):
            p = prunable[rng.randint(len(prunable))]
            node = node_at(root, p)
            rows = np.asarray(node.split.condition()).copy()
            new = gen.prune_at(tree, node)
            sh = replace_leaf(sh, p, ("L",))
            case.check(node_at(oracle.root_of(tree), p) is new, "the pruned node was not replaced by the proposed leaf")
            case.equal(np.asarray(new.split.condition()), rows, "pruning did not restore the node's rows")
            case.equal(new.depth, len(p), "pruning did not restore the node's depth")
            history.append(("prune", p))
        elif growable:
            p = growable[rng.randint(len(growable))]
            node = node_at(root, p)
            rows = X[walk[id(node)]]
            cols = oracle.splittable_columns(rows)
            j = cols[rng.randint(len(cols))]
            vals = np.unique(rows[:, j])
            v = float(vals[rng.randint(len(vals) - 1)])
            dec = gen.grow_at(tree, node, j, v)
            sh = replace_leaf(sh, p, ("D", j, v, ("L",), ("L",)))
            case.check(node_at(oracle.root_of(tree), p) is dec, "the grown node was not replaced by the proposed split")
            history.append(("grow", p))
        else:
            break
        case.equal(oracle.structure(oracle.tree_shape(tree)), sh, "the tree differs from the mirrored history", last=history[-1])
        check_tree(case, tree, X)
        case.count("mirrored_operations")
    refused(case, tree)


def bushy(case):
    """Trees with dozens to hundreds of leaves."""
    def cb(tree, X, stage, model):
        check_tree(case, tree, X)
    tree, X = work.bushy(case, cb)
    refused(case, tree)
    case.count("bushy_trees")


def parts():
    return [Part("live", live, 240, 3000, needs=("split_trees", "refused")),
            Part("shadow", shadow, 120, 1500, needs=("mirrored_operations", "refused")),
            Part("bushy", bushy, 16, 160, needs=("bushy_trees", "split_trees"))]
