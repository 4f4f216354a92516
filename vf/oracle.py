"""Independent reference computations.

Trees are read only through their public links (children, the rule of a decision node, the value of a leaf);
everything else is recomputed here from the covariate matrix, the target and the definitions.
"""
import numpy as np


# ---- reading a tree -------------------------------------------------------------------------------

def is_leaf(node):
    return node.left_child is None and node.right_child is None


def root_of(tree):
    children = {id(c) for n in tree.nodes for c in (n.left_child, n.right_child) if c is not None}
    roots = [n for n in tree.nodes if id(n) not in children]
    if len(roots) != 1:
        raise AssertionError("tree has %d roots" % len(roots))
    return roots[0]


def rule(node):
    c = node.most_recent_split_condition()
    return int(c.splitting_variable), float(c.splitting_value)


def shape(node):
    """Nested tuples: ('L', value, depth) or ('D', variable, threshold, depth, left, right)."""
    if is_leaf(node):
        return ("L", float(node.current_value), int(node.depth))
    v, t = rule(node)
    return ("D", v, t, int(node.depth), shape(node.left_child), shape(node.right_child))


def tree_shape(tree):
    return shape(root_of(tree))


def structure(s):
    """The shape without leaf values."""
    if s[0] == "L":
        return ("L",)
    return ("D", s[1], s[2], structure(s[4]), structure(s[5]))


def shape_predict(s, X):
    out = np.empty(len(X))

    def go(s, idx):
        if s[0] == "L":
            out[idx] = s[1]
            return
        left = X[idx, s[1]] <= s[2]
        go(s[4], idx[left])
        go(s[5], idx[~left])
    go(s, np.arange(len(X)))
    return out


def walk_leaf(node, x):
    """The leaf a row ends up in, going left iff x[variable] <= threshold."""
    while not is_leaf(node):
        v, t = rule(node)
        node = node.left_child if x[v] <= t else node.right_child
    return node


def rows_by_walk(root, X):
    """id(node) -> boolean row membership, from the rules alone."""
    out = {}

    def go(node, idx):
        m = np.zeros(len(X), dtype=bool)
        m[idx] = True
        out[id(node)] = m
        if is_leaf(node):
            return
        v, t = rule(node)
        left = X[idx, v] <= t
        go(node.left_child, idx[left])
        go(node.right_child, idx[~left])
    go(root, np.arange(len(X)))
    return out


def reachable(root):
    out = []
    stack = [root]
    while stack:
        n = stack.pop()
        out.append(n)
        for c in (n.left_child, n.right_child):
            if c is not None:
                stack.append(c)
    return out


def tree_predict(tree, X):
    return shape_predict(tree_shape(tree), X)


def model_predict(model, X):
    return np.sum([tree_predict(t, X) for t in model.trees], axis=0)


def n_leaves(s):
    return 1 if s[0] == "L" else n_leaves(s[4]) + n_leaves(s[5])


def depth_of(s):
    return s[2] if s[0] == "L" else max(depth_of(s[4]), depth_of(s[5]))


# ---- facts about a set of rows --------------------------------------------------------------------

def splittable_columns(Xn):
    if len(Xn) < 2:
        return []
    lo, hi = Xn.min(axis=0), Xn.max(axis=0)
    return [j for j in range(Xn.shape[1]) if lo[j] != hi[j]]


def candidates(col):
    """Thresholds a grow may use in this column with their probabilities."""
    v, c = np.unique(col, return_counts=True)
    return v[:-1], c[:-1] / c[:-1].sum()


# ---- densities ------------------------------------------------------------------------------------

def log_marginal(r, sigma, sigma_mu):
    """log density of r ~ N(0, sigma^2 I + sigma_mu^2 11')."""
    n = len(r)
    if n == 0:
        return 0.0
    if n <= 25 and sigma_mu < 100 * sigma:                  # otherwise the matrix is too badly conditioned
        cov = sigma ** 2 * np.eye(n) + sigma_mu ** 2 * np.ones((n, n))
        L = np.linalg.cholesky(cov)
        z = np.linalg.solve(L, r)
        return float(-0.5 * n * np.log(2 * np.pi) - np.log(np.diag(L)).sum() - 0.5 * z @ z)
    v, vm = np.longdouble(sigma) ** 2, np.longdouble(sigma_mu) ** 2
    r = r.astype(np.longdouble)
    s, q = r.sum(), (r * r).sum()
    return float(-0.5 * n * np.log(2 * np.pi) - 0.5 * (n - 1) * np.log(v) - 0.5 * np.log(v + n * vm)
                 - 0.5 * (q / v - vm * s * s / (v * (v + n * vm))))


def p_split(alpha, beta, depth):
    return alpha * (1.0 + depth) ** (-beta)


def tree_stats(s, X, idx=None):
    """(number of splittable leaves, number of decision nodes with two leaf children) from the rules alone."""
    if idx is None:
        idx = np.arange(len(X))
    if s[0] == "L":
        return (1 if splittable_columns(X[idx]) else 0), 0
    left = X[idx, s[1]] <= s[2]
    a, b = tree_stats(s[4], X, idx[left]), tree_stats(s[5], X, idx[~left])
    return a[0] + b[0], a[1] + b[1] + (1 if s[4][0] == "L" and s[5][0] == "L" else 0)


def log_split_prior(s, alpha, beta):
    """log prior of a structure, leaving out the probability of the rules."""
    p = p_split(alpha, beta, s[2] if s[0] == "L" else s[3])
    if s[0] == "L":
        return np.log1p(-p)
    return np.log(p) + log_split_prior(s[4], alpha, beta) + log_split_prior(s[5], alpha, beta)


def log_likelihood(s, X, r, sigma, sigma_mu, idx=None):
    if idx is None:
        idx = np.arange(len(X))
    if s[0] == "L":
        return log_marginal(r[idx], sigma, sigma_mu)
    left = X[idx, s[1]] <= s[2]
    return log_likelihood(s[4], X, r, sigma, sigma_mu, idx[left]) + log_likelihood(s[5], X, r, sigma, sigma_mu, idx[~left])


def mh_log_ratio(before, after, X, r, sigma, sigma_mu, alpha, beta, pg):
    """The Metropolis-Hastings log ratio of moving from `before` to `after` (one grow or one prune apart).

    The rule of a new split has the same probability in the prior and in the proposal, so it cancels.
    """
    def method_probs(s):
        grow, prune = tree_stats(s, X)
        if grow and prune:
            return pg, 1 - pg, grow, prune
        return (1.0 if grow else 0.0), (1.0 if prune else 0.0), grow, prune
    b, a = method_probs(before), method_probs(after)
    growing = n_leaves(after) > n_leaves(before)
    if growing:
        q = np.log(a[1] / a[3]) - np.log(b[0] / b[2])
    else:
        q = np.log(a[0] / a[2]) - np.log(b[1] / b[3])
    lik = log_likelihood(after, X, r, sigma, sigma_mu) - log_likelihood(before, X, r, sigma, sigma_mu)
    pri = log_split_prior(after, alpha, beta) - log_split_prior(before, alpha, beta)
    return lik + pri + q


# ---- enumeration of trees on small data -----------------------------------------------------------

def enumerate_trees(X, idx=None, depth=0, max_depth=99):
    """All structures the proposals can reach, as (structure, log probability of its rules)."""
    if idx is None:
        idx = np.arange(len(X))
    out = [(("L",), 0.0)]
    cols = splittable_columns(X[idx])
    if not cols or depth >= max_depth:
        return out
    for j in cols:
        vals, probs = candidates(X[idx, j])
        for v, p in zip(vals, probs):
            left = X[idx, j] <= v
            lp = np.log(p) - np.log(len(cols))
            for a, la in enumerate_trees(X, idx[left], depth + 1, max_depth):
                for b, lb in enumerate_trees(X, idx[~left], depth + 1, max_depth):
                    out.append((("D", j, float(v), a, b), lp + la + lb))
    return out


def log_post_structure(s, X, r, sigma, sigma_mu, alpha, beta, depth=0, idx=None):
    if idx is None:
        idx = np.arange(len(X))
    p = p_split(alpha, beta, depth)
    if s[0] == "L":
        return np.log1p(-p) + log_marginal(r[idx], sigma, sigma_mu)
    left = X[idx, s[1]] <= s[2]
    return (np.log(p) + log_post_structure(s[3], X, r, sigma, sigma_mu, alpha, beta, depth + 1, idx[left])
            + log_post_structure(s[4], X, r, sigma, sigma_mu, alpha, beta, depth + 1, idx[~left]))


def draw_prior_tree(rng, X, alpha, beta):
    """A structure from the tree prior (product of split/not-split probabilities and rule probabilities)."""
    while True:
        log_w = [0.0]

        def go(idx, depth):
            p = p_split(alpha, beta, depth)
            cols = splittable_columns(X[idx])
            if not cols:
                log_w[0] += np.log1p(-p)        # the prior charges unsplittable leaves like any other
                return ("L",)
            if rng.uniform() >= p:
                return ("L",)
            j = cols[rng.randint(len(cols))]
            vals, probs = candidates(X[idx, j])
            v = vals[rng.choice(len(vals), p=probs)]
            left = X[idx, j] <= v
            return ("D", j, float(v), go(idx[left], depth + 1), go(idx[~left], depth + 1))
        s = go(np.arange(len(X)), 0)
        if np.log(rng.uniform()) < log_w[0]:
            return s


def build_tree(X, y, s, values):
    """Construct a real Tree with this structure; `values` is an iterator of leaf values."""
    from vf import gen
    tree = gen.single_tree(X, y)

    def go(node, s):
        if s[0] == "L":
            node.set_value(next(values))
            return
        dec = gen.grow_at(tree, node, s[1], s[2])
        go(dec.left_child, s[3])
        go(dec.right_child, s[4])
    go(tree.nodes[0], s)
    return tree
