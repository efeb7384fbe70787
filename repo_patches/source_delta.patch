From 36087123c1a8525cc9699d7f31806fa761d48aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:56 +0000
Subject: [PATCH 01/69] fix: get_neighbor_vectors(include_zero=True) returned
 -pos of the atom instead of the zero vector

---
 lattpy/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 62c1b9f..3103a07 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -847,9 +847,9 @@ class LatticeStructure(LatticeBasis):
 
         pos0 = self._positions[alpha]
         pos1 = self.get_neighbor_positions(alpha=alpha, distidx=distidx)
-        if include_zero:
-            pos1 = np.append(np.zeros((1, self.dim)), pos1, axis=0)
         vecs = pos1 - pos0
+        if include_zero:
+            vecs = np.append(np.zeros((1, self.dim)), vecs, axis=0)
         logger.debug("Neighbour-vectors: %s", vecs)
 
         return vecs
-- 
2.43.0


From daa379ff7c85c402f72222e156fb44b8f7eab6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:09 +0000
Subject: [PATCH 02/69] fix: analyze missed neighbors for strongly skewed bases
 and atoms far outside the unit cell

---
 lattpy/structure.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 3103a07..ca0737d 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -452,12 +452,17 @@ class LatticeStructure(LatticeBasis):
 
         # Build indices of neighbor-cells
         self._positions = np.asarray(self._positions)
-        cell_range = 2 * max_distidx
-        logger.debug("Max. distidx: %i, Cell-range: %i", max_distidx, cell_range)
-
-        nvecs = self.get_neighbor_cells(
-            cell_range, include_origin=True, comparison=np.less_equal
-        )
+        # The sites along the shortest lattice vector contain at least `max_distidx`
+        # distances for each atom-pair, so all neighbors are closer than `max_dist`
+        offsets = self._positions[:, None] - self._positions[None, :]
+        max_offset = np.max(np.linalg.norm(offsets, axis=-1))
+        max_dist = max_offset + 2 * max_distidx * np.min(self.norms)
+        # Number of cells needed along each lattice vector to reach all neighbors
+        num_cells = (max_dist + max_offset) * np.linalg.norm(self._vectors_inv, axis=1)
+        num_cells = np.ceil(num_cells).astype(np.int64)
+        logger.debug("Max. distidx: %i, Cell-range: %s", max_distidx, num_cells)
+
+        nvecs = vindices(np.stack([-num_cells, num_cells + 1], axis=1))
         arrays = [
             np.c_[nvecs, i * np.ones(nvecs.shape[0])] for i in range(self.num_base)
         ]
-- 
2.43.0


From c9aaf5e1f2960e25d32ef0fea158ba85dc7455ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:09 +0000
Subject: [PATCH 03/69] fix: num_neighbors overflowed for more than 127
 neighbors

---
 lattpy/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index ca0737d..0d57763 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -602,7 +602,7 @@ class LatticeStructure(LatticeBasis):
         max_num_distances = len(unique_distances)
 
         # Compute number of neighbors for each atom in the unit cell
-        num_neighbors = np.zeros(self.num_base, dtype=np.int8)
+        num_neighbors = np.zeros(self.num_base, dtype=np.int64)
         for i, neighbors in enumerate(base_neighbors):
             num_neighbors[i] = sum(len(indices) for indices in neighbors.values())
 
-- 
2.43.0


From 9d5c70aa562687ebdad666531bf6143bc9f658d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:07 +0000
Subject: [PATCH 04/69] fix: finite lattice lost neighbors when more sites lie
 within the cutoff than configured neighbors

---
 lattpy/lattice.py   |  6 +++---
 lattpy/structure.py | 14 +++++++++++++-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index e6f2930..0118cc6 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -561,8 +561,8 @@ class Lattice(LatticeStructure):
     def kdtree(self, positions=None, eps=0.0, boxsize=None):
         if positions is None:
             positions = self.data.positions
-        k = np.sum(np.sum(self._raw_num_neighbors, axis=1)) + 1
         max_dist = np.max(self.distances) + 0.1 * np.min(self._raw_distance_matrix)
+        k = self._max_num_points(max_dist)
         return KDTree(positions, k, max_dist, eps=eps, boxsize=boxsize)
 
     def _compute_pneighbors(
@@ -576,8 +576,8 @@ class Lattice(LatticeStructure):
         invald_idx = len(indices)
 
         # Build tree
-        k = np.sum(np.sum(self._raw_num_neighbors, axis=1)) + 1
         max_dist = np.max(self.distances) + 0.1 * np.min(self._raw_distance_matrix)
+        k = self._max_num_points(max_dist)
         tree = KDTree(positions, k, max_dist)
 
         # Initialize arrays
@@ -702,8 +702,8 @@ class Lattice(LatticeStructure):
 
     def _compute_connection_neighbors(self, positions1, positions2):
         # Set neighbor query parameters
-        k = np.sum(np.sum(self._raw_num_neighbors, axis=1)) + 1
         max_dist = np.max(self.distances) + 0.1 * np.min(self._raw_distance_matrix)
+        k = self._max_num_points(max_dist)
 
         # Build sub-lattice tree's
         tree1 = KDTree(positions1, k=k, max_dist=max_dist)
diff --git a/lattpy/structure.py b/lattpy/structure.py
index 0d57763..cd95e6a 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1248,6 +1248,18 @@ class LatticeStructure(LatticeBasis):
 
         return neighbors, distances
 
+    def _max_num_points(self, max_dist):
+        """Computes the maximal number of sites (including the site itself) that lie
+        within the given distance of a site."""
+        pos = np.asarray(self._positions)
+        max_offset = np.max(np.linalg.norm(pos[:, None] - pos[None, :], axis=-1))
+        num_cells = (max_dist + max_offset) * np.linalg.norm(self._vectors_inv, axis=1)
+        num_cells = np.ceil(num_cells).astype(np.int64)
+        nvecs = vindices(np.stack([-num_cells, num_cells + 1], axis=1))
+        points = interweave([self.translate(nvecs, r) for r in pos])
+        dists = np.linalg.norm(pos[:, None] - points[None, :], axis=-1)
+        return int(np.max(np.count_nonzero(dists <= max_dist, axis=1))) + 1
+
     # noinspection PyShadowingNames
     def compute_neighbors(
         self, indices: ArrayLike, positions: ArrayLike, num_jobs: int = 1
@@ -1316,8 +1328,8 @@ class LatticeStructure(LatticeBasis):
         logger.debug("Querying neighbors of %i points", len(positions))
 
         # Set neighbor query parameters and build tree
-        k = np.sum(np.sum(self._raw_num_neighbors, axis=1)) + 1
         max_dist = np.max(self.distances) + 0.1 * np.min(self._raw_distance_matrix)
+        k = self._max_num_points(max_dist)
         tree = KDTree(positions, k=k, max_dist=max_dist)
         logger.debug("Max. number of neighbors: %i", k)
         logger.debug("Max. neighbor distance:   %f", max_dist)
-- 
2.43.0


From 530d905acdb2b8afb26d12f6d88b71611be181af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:22 +0000
Subject: [PATCH 05/69] fix: vindices overflowed if an axis has more indices
 than its data-type can hold

---
 lattpy/spatial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index da3f52e..c40456c 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -154,6 +154,8 @@ def vindices(
 
     # version 3:
     size = limits[:, 1] - limits[:, 0]
+    # The number of indices along an axis can exceed the range of the limits
+    dtype = np.promote_types(dtype, min_dtype(size, signed=True))
     nvecs = np.indices(size, dtype=dtype).reshape(dim, -1).T + limits[:, 0]
 
     # Optionally sort indices along given axis
-- 
2.43.0


From d49549f3580c1dd437d550e3d6bbe47663f26ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:33 +0000
Subject: [PATCH 06/69] fix: build missed sites for shapes with offsets,
 oblique or negative bases and atoms outside the unit cell

build_translation_vectors estimated the index range from a subset of the
corners of a box at the origin and ignored the offsets of the atoms.
check_points modified the passed position and shape in place.
---
 lattpy/structure.py | 69 ++++++++++++++++++---------------------------
 1 file changed, 27 insertions(+), 42 deletions(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index cd95e6a..02a6f94 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -42,7 +42,7 @@ from .plotting import (
 )
 from .spatial import vindices, interweave, KDTree
 from .atom import Atom
-from .shape import AbstractShape
+from .shape import AbstractShape, Shape
 from .basis import basis_t, LatticeBasis
 
 logger = logging.getLogger(__name__)
@@ -958,26 +958,15 @@ class LatticeStructure(LatticeBasis):
         >>> latt.check_points(points, shape)
         [ True  True False]
         """
-        if isinstance(shape, AbstractShape):
-            return shape.contains(points, tol)
-        else:
+        if not isinstance(shape, AbstractShape):
             shape = np.atleast_1d(shape)
             if len(shape) != self.dim:
                 raise ValueError(
                     f"Dimension of shape {len(shape)} doesn't "
                     f"match the dimension of the lattice {self.dim}"
                 )
-            if relative:
-                shape += np.max(self.vectors, axis=0) - 0.1 * self.norms
-
-            pos = np.zeros(self.dim) if pos is None else np.array(pos, dtype=np.float64)
-            pos -= tol
-            end = pos + shape + tol
-
-            mask = (pos[0] <= points[:, 0]) & (points[:, 0] <= end[0])
-            for i in range(1, self.dim):
-                mask = mask & (pos[i] <= points[:, i]) & (points[:, i] <= end[i])
-            return mask
+            shape = Shape(shape, pos, basis=self.vectors if relative else None)
+        return shape.contains(points, tol)
 
     def build_translation_vectors(
         self,
@@ -1037,37 +1026,33 @@ class LatticeStructure(LatticeBasis):
          [2 2]]
         """
         # Build lattice indices
-        if isinstance(shape, AbstractShape):
-            pos, stop = shape.limits().T
-            shape = stop - pos
-        shape = np.atleast_1d(shape)
-        if len(shape) != self.dim:
-            raise ValueError(
-                f"Dimension of shape {len(shape)} doesn't "
-                f"match the dimension of the lattice {self.dim}"
-            )
-        logger.debug("Building nvecs: %s at %s", shape, pos)
+        if not isinstance(shape, AbstractShape):
+            shape = np.atleast_1d(shape)
+            if len(shape) != self.dim:
+                raise ValueError(
+                    f"Dimension of shape {len(shape)} doesn't "
+                    f"match the dimension of the lattice {self.dim}"
+                )
+            shape = Shape(shape, pos, basis=self.vectors if primitive else None)
+        start, end = np.array(shape.limits(), dtype=np.float64).T
+        size = end - start
+        logger.debug("Building nvecs: %s at %s", size, start)
 
         if primitive:
-            shape = np.array(shape) * np.max(self.vectors, axis=0) - 0.1 * self.norms
-        if pos is None:
-            pos = np.zeros(self.dim)
-        end = pos + shape
-
-        # Estimate the maximum needed translation vector to reach all points
+            # Don't include the cells starting at the upper edges of the shape
+            end = end - 1e-3 * self.norms
+
+        # Estimate the translation vectors needed to reach all corners of the box
+        # around the shape from all atom positions in the unit cell
+        corners = np.array(list(itertools.product(*zip(start, end))))
+        offsets = np.array([np.zeros(self.dim), *self.atom_positions])
+        points = (corners[:, None, :] - offsets[None, :, :]).reshape(-1, self.dim)
+        index = self.itranslate(points)[0].astype(np.float64)
+        # Pad maximum translation vectors and create index limits
+        padding = oversample * size + 1
         max_nvecs = np.array(
-            [self.itranslate(pos)[0], self.itranslate(end)[0]], dtype=np.float64
+            [np.min(index, axis=0) - padding, np.max(index, axis=0) + padding]
         )
-        for i in range(1, self.dim):
-            for idx in itertools.combinations(range(self.dim), r=i):
-                _pos = end.copy()
-                _pos[np.array(idx)] = 0
-                index = self.itranslate(_pos)[0]
-                max_nvecs[0] = np.min([index, max_nvecs[0]], axis=0)
-                max_nvecs[1] = np.max([index, max_nvecs[1]], axis=0)
-        # Pad maximum translation vectors and create index limits
-        padding = oversample * shape + 1
-        max_nvecs += [-padding, +padding]
         limits = max_nvecs.astype(np.int64).T
         logger.debug("Limits: %s, %s", limits[:, 0], limits[:, 1])
 
-- 
2.43.0


From 04965922802694063180737908e1f3b1f40e184b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:25 +0000
Subject: [PATCH 07/69] fix: cached data map was stale after changing the
 neighbor data

---
 lattpy/data.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lattpy/data.py b/lattpy/data.py
index 4d5651d..5f99994 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -345,6 +345,7 @@ class LatticeData:
         neighbors[neighbors == invalid_idx] = num_sites
 
         # Set updated data
+        self._dmap = None
         self.indices = indices
         self.positions = positions
         self.neighbors = neighbors
@@ -451,6 +452,7 @@ class LatticeData:
         """
         # remove previous periodic neighbors
         self.remove_periodic()
+        self._dmap = None
         # Set new periodic neighbors
         for i, pidx in indices.items():
             # compute invalid slots of normal data
@@ -472,6 +474,7 @@ class LatticeData:
         if reverse:
             indices = indices[::-1]
         # Reorder data
+        self._dmap = None
         self.indices = self.indices[indices]
         self.positions = self.positions[indices]
         self.neighbors = self.neighbors[indices]
@@ -487,6 +490,7 @@ class LatticeData:
             self.neighbors[mask] = new
 
     def remove_periodic(self):
+        self._dmap = None
         mask = self.pmask
         self.neighbors[mask] = self.invalid_idx
         self.distances[mask] = self.invalid_distidx
@@ -498,6 +502,7 @@ class LatticeData:
         distances = self.distvals[self.distances]
         i = np.arange(len(distances))[:, np.newaxis]
         j = np.argsort(distances, axis=1)
+        self._dmap = None
         self.neighbors = self.neighbors[i, j]
         self.distances = self.distances[i, j]
         self.paxes = self.paxes[i, j]
@@ -513,6 +518,7 @@ class LatticeData:
         # Translate distances to indices
         distidx = np.asarray([np.searchsorted(self.distvals, d) for d in distances])
         # Add new neighbor data to unused slots
+        self._dmap = None
         self.neighbors[site, i0:i1] = neighbors
         self.distances[site, i0:i1] = distidx
 
-- 
2.43.0


From 1c52d86989bdf53d4144ac0c6049d02034abe350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:54 +0000
Subject: [PATCH 08/69] fix: removing sites left the periodic neighbor data of
 the removed sites

The masks and translation vectors of the periodic neighbors were not updated
and sites passed more than once shifted the neighbor indices repeatedly.
---
 lattpy/data.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lattpy/data.py b/lattpy/data.py
index 5f99994..2270517 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -321,6 +321,8 @@ class LatticeData:
 
     def remove(self, sites):
         sites = np.atleast_1d(sites)
+        # Every site can only be removed once
+        sites = np.unique(np.where(sites < 0, sites + self.num_sites, sites))
 
         # store current invalid index
         invalid_idx = self.invalid_idx
@@ -331,12 +333,18 @@ class LatticeData:
         positions = np.delete(self.positions, sites, axis=0)
         neighbors = np.delete(self.neighbors, sites, axis=0)
         distances = np.delete(self.distances, sites, axis=0)
+        paxes = np.delete(self.paxes, sites, axis=0)
+        pnvecs = np.delete(self.pnvecs, sites, axis=0)
+        pmask = np.delete(self.pmask, sites, axis=0)
 
         # Update neighbor indices and distances:
         # For each removed site below the neighbor index has to be decremented once
         mask = np.isin(neighbors, sites)
         neighbors[mask] = invalid_idx
         distances[mask] = invalid_distidx
+        paxes[mask] = self.dim
+        pnvecs[mask] = 0
+        pmask[mask] = False
         for count, i in enumerate(sorted(sites)):
             neighbors[neighbors > (i - count)] -= 1
 
@@ -350,6 +358,9 @@ class LatticeData:
         self.positions = positions
         self.neighbors = neighbors
         self.distances = distances
+        self.paxes = paxes
+        self.pnvecs = pnvecs
+        self.pmask = pmask
         self.invalid_idx = num_sites
 
     def get_limits(self) -> np.ndarray:
-- 
2.43.0


From 87b7619fc1081ef38b7461f55aa4475bd668e84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:04 +0000
Subject: [PATCH 09/69] fix: farthest neighbors were marked as invalid if every
 site has all neighbors

The last distance was used as marker of the invalid slots, even if there are none.
The look-up table of the distances also overflowed for more than 255 distances.
---
 lattpy/data.py  | 5 ++++-
 lattpy/utils.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index 2270517..4145bad 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -305,6 +305,9 @@ class LatticeData:
         """
         logger.debug("Setting data")
         distvals, distidx = create_lookup_table(distances)
+        if not len(distvals) or np.isfinite(distvals[-1]):
+            # No invalid neighbors: add the distance index marking invalid slots
+            distvals = np.append(distvals, np.inf)
 
         self.indices = indices
         self.positions = positions
@@ -316,7 +319,7 @@ class LatticeData:
         self.pmask = np.zeros_like(self.neighbors, dtype=bool)
 
         self.invalid_idx = self.num_sites
-        self.invalid_distidx = np.max(self.distances)
+        self.invalid_distidx = len(distvals) - 1
         self._dmap = None
 
     def remove(self, sites):
diff --git a/lattpy/utils.py b/lattpy/utils.py
index daebe60..89f4b7b 100644
--- a/lattpy/utils.py
+++ b/lattpy/utils.py
@@ -123,7 +123,8 @@ def create_lookup_table(
     dtype : int or np.dtype, optional
             Optional data-type for storing the indices of the unique values.
             By default `np.uint8` is used, since it is assumed that the
-            input-array has only a few unique values.
+            input-array has only a few unique values. The data-type is upgraded
+            if it can't store the indices of all unique values.
 
     Returns
     -------
@@ -133,6 +134,8 @@ def create_lookup_table(
         The corresponding indices in the same shape as the input-array.
     """
     values = np.sort(np.unique(array))
+    if np.array(len(values)).astype(dtype) != len(values):
+        dtype = np.min_scalar_type(len(values))
     indices = np.zeros_like(array, dtype=dtype)
     for i, x in enumerate(values):
         mask = array == x
-- 
2.43.0


From 9c00c5e839be0d243c2018500bce75b30e60eac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:29 +0000
Subject: [PATCH 10/69] fix: periodic and added neighbors overwrote or exceeded
 the neighbor slots of a site

The neighbors were added to the slots after the existing neighbors, which are not
always packed and do not always have enough free slots left, and distances missing
in the existing data were mapped to the index of another distance.
---
 lattpy/data.py | 68 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 50 insertions(+), 18 deletions(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index 4145bad..24eae51 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -470,17 +470,50 @@ class LatticeData:
         # Set new periodic neighbors
         for i, pidx in indices.items():
             # compute invalid slots of normal data
-            i0 = len(self.get_neighbors(i, periodic=False))
-            i1 = i0 + len(pidx)
-            # translate distances to indices
-            dists = distances[i]
-            distidx = [np.searchsorted(self.distvals, d) for d in dists]
+            distidx = self._get_distidx(distances[i])
+            slots = self._get_free_slots(i, len(pidx))
             # add periodic data
-            self.neighbors[i, i0:i1] = pidx
-            self.distances[i, i0:i1] = distidx
-            self.paxes[i, i0:i1, : axes[i].shape[1]] = axes[i]
-            self.pnvecs[i, i0:i1] = nvecs[i]
-            self.pmask[i, i0:i1] = 1
+            self.neighbors[i, slots] = pidx
+            self.distances[i, slots] = distidx
+            self.paxes[i, slots, : axes[i].shape[1]] = axes[i]
+            self.pnvecs[i, slots] = nvecs[i]
+            self.pmask[i, slots] = 1
+
+    def _get_distidx(self, distances):
+        """Translates distances to distance indices and adds missing distances."""
+        distances = np.asarray(distances, dtype=np.float64)
+        diffs = np.abs(self.distvals[:-1] - distances[:, np.newaxis])
+        missing = np.unique(distances[~np.any(diffs < 1e-4, axis=1)])
+        if len(missing):
+            distvals = np.sort(np.append(self.distvals, missing))
+            dtype = np.promote_types(
+                self.distances.dtype, np.min_scalar_type(len(distvals))
+            )
+            indices = np.searchsorted(distvals, self.distvals).astype(dtype)
+            self.distances = indices[self.distances]
+            self.distvals = distvals
+            self.invalid_distidx = len(distvals) - 1
+            diffs = np.abs(self.distvals[:-1] - distances[:, np.newaxis])
+        return np.argmin(diffs, axis=1)
+
+    def _get_free_slots(self, site, num):
+        """Returns unused neighbor slots of a site and adds new ones if required."""
+        slots = np.where(self.distances[site] == self.invalid_distidx)[0]
+        if len(slots) < num:
+            widths = ((0, 0), (0, num - len(slots)))
+            self.neighbors = np.pad(
+                self.neighbors, widths, constant_values=self.invalid_idx
+            )
+            self.distances = np.pad(
+                self.distances, widths, constant_values=self.invalid_distidx
+            )
+            self.paxes = np.pad(
+                self.paxes, (*widths, (0, 0)), constant_values=self.dim
+            )
+            self.pnvecs = np.pad(self.pnvecs, (*widths, (0, 0)))
+            self.pmask = np.pad(self.pmask, widths)
+            slots = np.where(self.distances[site] == self.invalid_distidx)[0]
+        return slots[:num]
 
     def sort(self, ax=None, indices=None, reverse=False):
         if ax is not None:
@@ -524,17 +557,16 @@ class LatticeData:
         self.pmask = self.pmask[i, j]
 
     def add_neighbors(self, site, neighbors, distances):
-        neighbors = np.atleast_2d(neighbors)
-        distances = np.atleast_2d(distances)
-        # compute invalid slots of normal data
-        i0 = len(self.distances[site, self.distances[site] != self.invalid_distidx])
-        i1 = i0 + len(neighbors)
+        neighbors = np.atleast_1d(neighbors).flatten()
+        distances = np.atleast_1d(distances).flatten()
         # Translate distances to indices
-        distidx = np.asarray([np.searchsorted(self.distvals, d) for d in distances])
+        distidx = self._get_distidx(distances)
+        # compute invalid slots of normal data
+        slots = self._get_free_slots(site, len(neighbors))
         # Add new neighbor data to unused slots
         self._dmap = None
-        self.neighbors[site, i0:i1] = neighbors
-        self.distances[site, i0:i1] = distidx
+        self.neighbors[site, slots] = neighbors
+        self.distances[site, slots] = distidx
 
     def append(self, *args, copy=False):
         neighbors1 = self.neighbors.copy()
-- 
2.43.0


From 51ee66883843e919661094b2b4a1c61e58304782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:02 +0000
Subject: [PATCH 11/69] fix: appending lattice data kept periodic neighbors and
 overflowed the neighbor indices

The periodic neighbors were removed after copying the neighbor data, the neighbor
indices of the appended data were modified in place and shifted using a data-type
too small for the joined data.
---
 lattpy/data.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index 24eae51..ecbb5d0 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -15,7 +15,7 @@ from copy import deepcopy
 from typing import Union, Sequence
 import numpy as np
 from scipy.sparse import csr_matrix, bsr_matrix
-from .utils import create_lookup_table, min_dtype
+from .utils import create_lookup_table
 
 __all__ = ["DataMap", "LatticeData"]
 
@@ -569,10 +569,14 @@ class LatticeData:
         self.distances[site, slots] = distidx
 
     def append(self, *args, copy=False):
-        neighbors1 = self.neighbors.copy()
-        distances1 = self.distvals[self.distances]
+        # Remove periodic neighbors
+        data = self.copy()
+        data.remove_periodic()
+        neighbors1 = data.neighbors
+        distances1 = data.distvals[data.distances]
         if len(args) == 1 and isinstance(args[0], LatticeData):
-            data = args[0]
+            data = args[0].copy()
+            data.remove_periodic()
             indices2 = data.indices
             positions2 = data.positions
             neighbors2 = data.neighbors
@@ -580,20 +584,16 @@ class LatticeData:
         else:
             indices2, positions2, neighbors2, distances2 = args
 
-        # Remove periodic neighbors
-        self.remove_periodic()
-
-        # Convert invalid indices of neighbor data
-        invalid_idx = self.num_sites + len(indices2)
-        neighbors1[neighbors1 == self.invalid_idx] = invalid_idx
-        neighbors2[neighbors2 == len(indices2)] = invalid_idx
-
         # upgrade dtype if neccessary
-        dtype = min_dtype(np.max(neighbors2) + self.num_sites)
-        if dtype != neighbors2.dtype:
-            neighbors2 = neighbors2.astype(dtype)
+        invalid_idx = self.num_sites + len(indices2)
+        dtype = np.min_scalar_type(invalid_idx)
+        neighbors1 = neighbors1.astype(np.promote_types(neighbors1.dtype, dtype))
+        neighbors2 = neighbors2.astype(np.promote_types(neighbors2.dtype, dtype))
         # Shift neighbor indices
-        neighbors2[neighbors2 != invalid_idx] += self.num_sites
+        neighbors2 = neighbors2 + neighbors2.dtype.type(self.num_sites)
+        # Convert invalid indices of neighbor data
+        neighbors1[~np.isfinite(distances1)] = invalid_idx
+        neighbors2[~np.isfinite(distances2)] = invalid_idx
 
         # Pad neighbor data
         cols1 = neighbors1.shape[1]
-- 
2.43.0


From 3439c73f6e1e477b9a4951aeb0d22e180e76d631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:57 +0000
Subject: [PATCH 12/69] fix: appended lattices were connected by pairs that are
 not set up as connection

---
 lattpy/lattice.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 0118cc6..19d8a13 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -700,7 +700,7 @@ class Lattice(LatticeStructure):
             self.data.set_periodic(pidx, pdists, pnvecs, paxs)
             self.periodic_axes = axis
 
-    def _compute_connection_neighbors(self, positions1, positions2):
+    def _compute_connection_neighbors(self, indices1, positions1, indices2, positions2):
         # Set neighbor query parameters
         max_dist = np.max(self.distances) + 0.1 * np.min(self._raw_distance_matrix)
         k = self._max_num_points(max_dist)
@@ -717,7 +717,12 @@ class Lattice(LatticeStructure):
             if conns:
                 conns = np.asarray(conns)
                 dists = cdist(np.asarray([positions1[i]]), positions2[conns])[0]
+                dists = np.round(dists, decimals=self.DIST_DECIMALS)
                 for j, dist in zip(conns, dists):
+                    # Skip pairs that are not connected
+                    alpha1, alpha2 = indices1[i, -1], indices2[j, -1]
+                    if dist not in self._distance_matrix[alpha1][alpha2]:
+                        continue
                     pairs.append((i, j))
                     # pairs.append((j, i))
                     distances_.append(dist)
@@ -742,8 +747,10 @@ class Lattice(LatticeStructure):
         distances : (N) np.ndarray
             The corresponding distances for the connections.
         """
-        positions2 = latt.data.positions
-        return self._compute_connection_neighbors(self.data.positions, positions2)
+        data1, data2 = self.data, latt.data
+        return self._compute_connection_neighbors(
+            data1.indices, data1.positions, data2.indices, data2.positions
+        )
 
     def minimum_distances(self, site, primitive=None):
         """Computes the minimum distances between one site and the other lattice sites.
@@ -817,6 +824,7 @@ class Lattice(LatticeStructure):
         vec = self.translate(nvec)
 
         # Store temporary data
+        indices1 = self.data.indices
         positions1 = self.data.positions
 
         # Shift data of appended lattice
@@ -825,7 +833,9 @@ class Lattice(LatticeStructure):
 
         # Append data and compute connecting neighbors
         self.data.append(indices2, positions2, neighbors2, distances2)
-        pairs, distances_ = self._compute_connection_neighbors(positions1, positions2)
+        pairs, distances_ = self._compute_connection_neighbors(
+            indices1, positions1, indices2, positions2
+        )
         offset = len(positions1)
         for (i, j), dist in zip(pairs, distances_):
             self.data.add_neighbors(i, j + offset, dist)
-- 
2.43.0


From 6981ddd0abd60c0eaa643434f0d3c1236f9438f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:18 +0000
Subject: [PATCH 13/69] fix: lattices appended more than once on the left side
 overlapped and kept periodic neighbors

append and repeat with side=-1 placed the new section relative to the origin instead
of the start of the lattice, copied the periodic neighbors of the appended lattice,
left the periodic axes set and overflowed small index data-types.
---
 lattpy/lattice.py | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 19d8a13..5370cd7 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -800,6 +800,20 @@ class Lattice(LatticeStructure):
         # get minimum distances
         return np.min(dists, axis=0)
 
+    def _build_offset_vector(self, ax, primitive, indices):
+        # Translation vector moving the start of the given section along the axis
+        # to the start of the lattice
+        nvecs1, nvecs2 = self.data.indices[:, :-1], indices[:, :-1]
+        offset = np.zeros(self.dim)
+        if primitive:
+            offset[ax] = np.min(nvecs1[:, ax]) - np.min(nvecs2[:, ax])
+        else:
+            start1 = np.min(self.transform(nvecs1)[:, ax])
+            start2 = np.min(self.transform(nvecs2)[:, ax])
+            offset[ax] = start1 - start2
+            offset = np.round(self.itransform(offset), decimals=0)
+        return offset.astype(np.int64)
+
     def _append(
         self,
         ind,
@@ -812,7 +826,7 @@ class Lattice(LatticeStructure):
         sort_reverse=False,
         primitive=False,
     ):
-        indices2 = np.copy(ind)
+        indices2 = np.array(ind, dtype=np.int64)
         positions2 = np.copy(pos)
         neighbors2 = np.copy(neighbors)
         distances2 = np.copy(dists)
@@ -821,6 +835,7 @@ class Lattice(LatticeStructure):
         nvec = self._build_periodic_translation_vector(ax, primitive, indices)
         if side <= 0:
             nvec = -1 * nvec
+        nvec = nvec + self._build_offset_vector(ax, primitive, indices2)
         vec = self.translate(nvec)
 
         # Store temporary data
@@ -840,6 +855,9 @@ class Lattice(LatticeStructure):
         for (i, j), dist in zip(pairs, distances_):
             self.data.add_neighbors(i, j + offset, dist)
             self.data.add_neighbors(j + offset, i, dist)
+        self.data.sort_neighbors()
+        # The periodic neighbors are removed when appending data
+        self.periodic_axes = list()
 
         if sort_axis is not None:
             self.data.sort(sort_axis, reverse=sort_reverse)
@@ -904,10 +922,12 @@ class Lattice(LatticeStructure):
                 DeprecationWarning,
             )
 
-        ind = latt.data.indices
-        pos = latt.data.positions
-        neighbors = latt.data.neighbors
-        dists = latt.data.distvals[latt.data.distances]
+        data = latt.data.copy()
+        data.remove_periodic()
+        ind = data.indices
+        pos = data.positions
+        neighbors = data.neighbors
+        dists = data.distvals[data.distances]
         self._append(
             ind, pos, neighbors, dists, ax, side, sort_ax, sort_reverse, self.primitive
         )
@@ -995,10 +1015,12 @@ class Lattice(LatticeStructure):
         >>> latt.repeat(ax=1)
         [35.  5.]
         """
-        ind = self.data.indices
-        pos = self.data.positions
-        neighbors = self.data.neighbors
-        dists = self.data.distvals[self.data.distances]
+        data = self.data.copy()
+        data.remove_periodic()
+        ind = data.indices
+        pos = data.positions
+        neighbors = data.neighbors
+        dists = data.distvals[data.distances]
         prim = self.primitive
         for _ in range(num):
             self._append(
-- 
2.43.0


From 3df8d0208c9f39d51985185f6c4d43852316e36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:54 +0000
Subject: [PATCH 14/69] fix: extend built the new section at the origin and
 with the wrong width for primitive lattices

---
 lattpy/lattice.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 5370cd7..7c3266a 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -969,9 +969,18 @@ class Lattice(LatticeStructure):
         [8. 5.]
         """
         # Build indices and positions of new section
-        shape = np.copy(self.shape)
-        shape[ax] = size
-        ind, pos = self.build_indices(shape, primitive=self.primitive, return_pos=True)
+        if self.primitive:
+            # Section of unit cells with the same width as the lattice
+            start, stop = self.data.get_cell_limits().astype(np.int64)
+            stop = stop + 1
+            stop[ax] = start[ax] + size
+            ranges = [range(*lims) for lims in zip(start, stop)]
+            ind = np.array(list(itertools.product(*ranges, range(self.num_base))))
+            pos = self.get_positions(ind)
+        else:
+            shape = np.copy(self.shape)
+            shape[ax] = size
+            ind, pos = self.build_indices(shape, pos=self.pos, return_pos=True)
         # Compute the neighbors and distances between the sites of new section
         neighbors, dists = self.compute_neighbors(ind, pos, num_jobs)
         # Append new section
-- 
2.43.0


From 86f285637163c596716a0af9845b82890142a42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:54 +0000
Subject: [PATCH 15/69] fix: failed or repeated builds left data and periodic
 axes inconsistent

The data was deleted before the arguments and state of the lattice were checked and
the periodic axes of a previous build were kept.
---
 lattpy/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 7c3266a..d644d19 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -445,7 +445,6 @@ class Lattice(LatticeStructure):
         NotAnalyzedError
             Raised if the lattice distances and base-neighbors haven't been computed.
         """
-        self.data.reset()
         if not isinstance(shape, AbstractShape):
             basis = self.vectors if primitive else None
             shape = Shape(shape, pos=pos, basis=basis)
@@ -472,6 +471,7 @@ class Lattice(LatticeStructure):
         # Set data of the lattice and update shape
         self.data.set(indices, positions, neighbors, distances_)
         self.primitive = primitive
+        self.periodic_axes = list()
         self._update_shape()
 
         if periodic is not None:
-- 
2.43.0


From cea8a94563e43b67e35cb95322489041037f370a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:34 +0000
Subject: [PATCH 16/69] fix: periodic translation vectors missed corners of
 oblique and 3D lattices

Only pairs of axes were combined and the sign of the second axis was flipped in
lattice coordinates, which is not the reversed translation for oblique bases.
---
 lattpy/lattice.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index d644d19..ac33e7f 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -532,19 +532,19 @@ class Lattice(LatticeStructure):
             The first item of each element is the axis, the second the
             corresponding translation vector.
         """
-        # One axis: No combinations needed
-        if isinstance(axes, int) or len(axes) == 1:
-            return [(axes, self._build_periodic_translation_vector(axes, primitive))]
-        # Add all combinations of the periodic axis
+        axes = np.unique(np.atleast_1d(axes).astype(np.int64))
+        # Translation vectors of the single axes
+        nvecs = [self._build_periodic_translation_vector(a, primitive) for a in axes]
+        # Add all combinations of the translations (up to a sign) to ensure all
+        # corners are hit
         items = list()
-        for ax in itertools.combinations_with_replacement(axes, r=2):
-            nvec = self._build_periodic_translation_vector(ax, primitive)
-            items.append((ax, nvec))
-            # Use +/- for every axis exept the first one to ensure all corners are hit
-            if not np.all(np.array(ax) == axes[0]):
-                nvec2 = np.copy(nvec)
-                nvec2[1:] *= -1
-                items.append((ax, nvec2))
+        for signs in itertools.product((0, 1, -1), repeat=len(axes)):
+            active = np.nonzero(signs)[0]
+            if len(active) and signs[active[0]] > 0:
+                # Repeat last axis to get the same number of axes for all items
+                ax = [axes[i] for i in active]
+                ax = tuple(ax + ax[-1:] * (len(axes) - len(ax)))
+                items.append((ax, np.dot(signs, nvecs)))
         return items
 
     def _build_periodic(self, indices, positions, nvec, out_ind=None, out_pos=None):
-- 
2.43.0


From 5db58e9a06f8e6faa022286ea7f68eb5010ec319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:45 +0000
Subject: [PATCH 17/69] fix: periodic neighbors of small lattices got the data
 of other neighbors

Removing already connected sites from the list of periodic neighbors did not remove
the corresponding distances and translation vectors. The periodic axes were not
updated if there are no periodic neighbors.
---
 lattpy/lattice.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index ac33e7f..1ac651d 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -623,13 +623,12 @@ class Lattice(LatticeStructure):
             # This occurs for small lattices and makes no sense, since the
             # sites are already neighbors
             existing_neighbors = self.neighbors(k)
-            for _i, ind in enumerate(pi[:]):
-                if ind in existing_neighbors:
-                    pi.remove(ind)
+            new = [_i for _i, ind in enumerate(pi) if ind not in existing_neighbors]
 
-            if len(pi):
+            if len(new):
                 # Convert to arrays
-                sites, ind = np.unique(pi, return_index=True)
+                sites, ind = np.unique(np.array(pi)[new], return_index=True)
+                ind = np.array(new)[ind]
                 pidx[k] = np.array(sites)
                 pdists[k] = np.array(pdists[k])[ind]
                 paxs[k] = np.array(paxs[k])[ind]
@@ -692,11 +691,11 @@ class Lattice(LatticeStructure):
             self.data.remove_periodic()
             self.periodic_axes = list()
         else:
-            self.data.remove_periodic()
             axis = np.atleast_1d(axis)
+            if np.any(axis < -self.dim) or np.any(axis >= self.dim):
+                raise IndexError(f"Periodic axis {axis} out of range")
+            self.data.remove_periodic()
             pidx, pdists, pnvecs, paxs = self._compute_pneighbors(axis, primitive)
-            if not pidx:
-                return
             self.data.set_periodic(pidx, pdists, pnvecs, paxs)
             self.periodic_axes = axis
 
-- 
2.43.0


From e3bb1ba88d9dfc6b68fbc69a700eac16260e827e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:13 +0000
Subject: [PATCH 18/69] fix: translation vectors of periodic neighbors
 overflowed the index data-type

---
 lattpy/data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index ecbb5d0..10ab312 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -315,7 +315,9 @@ class LatticeData:
         self.distances = distidx
         self.distvals = distvals
         self.paxes = np.zeros((*self.neighbors.shape, self.dim), dtype=np.int8)
-        self.pnvecs = np.zeros((*self.neighbors.shape, self.dim), dtype=indices.dtype)
+        # The translation vectors can exceed the largest index
+        dtype = np.promote_types(indices.dtype, np.int32)
+        self.pnvecs = np.zeros((*self.neighbors.shape, self.dim), dtype=dtype)
         self.pmask = np.zeros_like(self.neighbors, dtype=bool)
 
         self.invalid_idx = self.num_sites
-- 
2.43.0


From 4bc065ff93ba26dfa7fdf39715ec3b16765b153a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:36 +0000
Subject: [PATCH 19/69] fix: check_neighbors and adjacency_matrix missed sites
 without certain neighbors

check_neighbors skipped distance indices beyond the number of distances present in
the data, adjacency_matrix cut off trailing sites without neighbors and overflowed
for more than 127 distances.
---
 lattpy/lattice.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 1ac651d..a999357 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -21,7 +21,7 @@ from scipy.spatial.distance import cdist
 import matplotlib.pyplot as plt
 from mpl_toolkits.mplot3d.axes3d import Axes3D
 from typing import Union, Optional, Tuple, Iterator, Sequence, Callable
-from .utils import ArrayLike, frmt_num, NotBuiltError
+from .utils import ArrayLike, frmt_num, min_dtype, NotBuiltError
 from .plotting import (
     subplot,
     draw_sites,
@@ -383,8 +383,8 @@ class Lattice(LatticeStructure):
         distidx : int or None
             The distance index of the two sites if they are neighbors.
         """
-        for distidx in range(self.num_distances):
-            if idx1 in self.neighbors(idx0, distidx):
+        for distidx, neighbors in self.iter_neighbors(idx0):
+            if idx1 in neighbors:
                 return distidx
         return None
 
@@ -1125,8 +1125,10 @@ class Lattice(LatticeStructure):
         """
         pairs, distindices = self.neighbor_pairs(unique=False)
         rows, cols = pairs.T  # noqa
-        data = distindices + 1
-        return csr_matrix((data, (rows, cols)), dtype=np.int8)
+        data = distindices.astype(np.int64) + 1
+        dtype = min_dtype(self.data.invalid_distidx)
+        shape = (self.num_sites, self.num_sites)
+        return csr_matrix((data, (rows, cols)), shape=shape, dtype=dtype)
 
     # ==================================================================================
 
-- 
2.43.0


From da19133183eff2cd7daf6a00cefee25f6db7150b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:23 +0000
Subject: [PATCH 20/69] fix: get_neighbor_cells skipped the nearest cells if
 the vectors have different lengths

---
 lattpy/basis.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index 158ee6a..4a30aa2 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -484,6 +484,12 @@ class LatticeBasis:
         rlatt = self.__class__(rvecs)
         return rlatt
 
+    def _get_cells(self, max_dist: float) -> np.ndarray:
+        """Constructs the indices of (at least) all cells in the given distance."""
+        max_factors = np.ceil(max_dist * np.linalg.norm(self._vectors_inv, axis=1))
+        ranges = [np.arange(-n, n + 1) for n in max_factors.astype(np.int64)]
+        return np.array(list(itertools.product(*ranges)))
+
     def get_neighbor_cells(
         self,
         distidx: int = 0,
@@ -515,21 +521,18 @@ class LatticeBasis:
          [ 0  1]
          [ 1  0]]
         """
-        # Build cell points
-        max_factor = distidx + 1
-        axis_factors = np.arange(-max_factor, max_factor + 1)
-        factors = np.array(list(itertools.product(axis_factors, repeat=self.dim)))
+        # Build cell points. Multiples of the shortest vector are an upper limit for
+        # the distance
+        scale = np.min(self.norms)
+        factors = self._get_cells((distidx + 1) * scale)
         points = np.dot(factors, self.vectors[np.newaxis, :, :])[:, 0, :]
 
         # Compute distances to origin for all points
         distances = np.linalg.norm(points, axis=1)
 
-        # Set maximum distances value to number of neighbors
-        # + number of unique vector lengths
-        max_distidx = distidx + len(np.unique(np.linalg.norm(self.vectors, axis=1)))
-
-        # Return points with distance lower than maximum distance
-        maxdist = np.sort(np.unique(distances))[max_distidx]
+        # Return points with the given distance (the first distance is the origin)
+        unique = np.unique(np.round(distances / scale, decimals=8))
+        maxdist = scale * unique[distidx + 1]
         indices = np.where(comparison(distances, maxdist))[0]
         factors = factors[indices]
 
-- 
2.43.0


From 5032a8c0451f42e2f2731c7c43dad0f58a8f7729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:41 +0000
Subject: [PATCH 21/69] fix: Wigner-Seitz cell was wrong or failed for
 rectangular, oblique and bcc lattices

Only the nearest neighbor cells were used to construct the cell instead of all
lattice points that define one of its faces.
---
 lattpy/basis.py   | 16 ++++++++++++++--
 lattpy/spatial.py |  8 ++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index 4a30aa2..255ba84 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -13,6 +13,7 @@
 import logging
 import itertools
 import numpy as np
+from scipy.spatial import cKDTree as KDTree
 import matplotlib.pyplot as plt
 from mpl_toolkits.mplot3d.axes3d import Axes3D
 from typing import Union, Sequence, Callable
@@ -552,9 +553,20 @@ class LatticeBasis:
         ws_cell : WignerSeitzCell
             The Wigner-Seitz cell of the lattice.
         """
-        nvecs = self.get_neighbor_cells(include_origin=True)
+        # The vectors defining the faces of the cell are not longer than the sum of the
+        # basis vectors
+        max_dist = np.sum(self.norms)
+        nvecs = self._get_cells(max_dist)
         positions = np.dot(nvecs, self.vectors[np.newaxis, :, :])[:, 0, :]
-        return WignerSeitzCell(positions)
+        positions = positions[np.linalg.norm(positions, axis=1) <= 1.001 * max_dist]
+        # A lattice point defines a face of the cell if the center between the point
+        # and the origin is closer to these two points than to any other lattice point
+        dists = KDTree(positions).query(positions / 2, k=3)[0]
+        half = np.linalg.norm(positions, axis=1)[:, np.newaxis] / 2
+        tol = 1e-8 * np.max(self.norms)
+        faces = np.sum(dists <= half + tol, axis=1) == 2
+        origin = np.zeros((1, self.dim))
+        return WignerSeitzCell(np.append(origin, positions[faces], axis=0))
 
     def brillouin_zone(self, min_negative: bool = False) -> WignerSeitzCell:
         """Computes the first Brillouin-zone of the lattice structure.
diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index c40456c..4b9fb39 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -456,6 +456,14 @@ class WignerSeitzCell(VoronoiTree):
     def __init__(self, points):
         super().__init__(points)
         self._root = self.query(np.zeros(self.dim))[1]
+        # Remove vertices that don't belong to the cell of the origin
+        tol = 1e-6 * np.max(np.abs(self.points))
+        dists = np.linalg.norm(self.vertices - self.points[self._root], axis=1)
+        idx = np.where(dists <= self.query(self.vertices)[0] + tol)[0]
+        self.vertices = self.vertices[idx]
+        self.edges = [
+            np.searchsorted(idx, edge) for edge in self.edges if np.isin(edge, idx).all()
+        ]
 
     @property
     def limits(self):
-- 
2.43.0


From adb4a2dd4aaca0142c5e6733e80e78e5d8fd057c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:04 +0000
Subject: [PATCH 22/69] fix: min_negative was passed as tolerance of the
 reciprocal vectors

The sign of the reciprocal vectors of left-handed bases was not corrected in
reciprocal_lattice and brillouin_zone.
---
 lattpy/basis.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index 255ba84..692c410 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -481,7 +481,10 @@ class LatticeBasis:
         [[6.28318531 0.        ]
          [0.         6.28318531]]
         """
-        rvecs = self.reciprocal_vectors(min_negative)
+        rvecs = self.reciprocal_vectors()
+        if min_negative:
+            # Flip vectors with more negative than positive elements
+            rvecs[np.sum(np.sign(np.round(rvecs, 10)), axis=1) < 0] *= -1
         rlatt = self.__class__(rvecs)
         return rlatt
 
@@ -584,9 +587,7 @@ class LatticeBasis:
         ws_cell : WignerSeitzCell
             The Wigner-Seitz cell of the reciprocal lattice.
         """
-        rvecs = self.reciprocal_vectors(min_negative)
-        rlatt = self.__class__(rvecs)
-        return rlatt.wigner_seitz_cell()
+        return self.reciprocal_lattice(min_negative).wigner_seitz_cell()
 
     def get_cell_superindex(self, index, shape):
         """Converts a cell index to a super-index for the given shape.
-- 
2.43.0


From 11e068cf34d40a439dbeb47efa588201ed845971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:24 +0000
Subject: [PATCH 23/69] fix: is_reciprocal ignored the dot-products of
 different vectors

---
 lattpy/basis.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index 692c410..6925c8a 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -384,10 +384,8 @@ class LatticeBasis:
         """
         vecs = np.atleast_2d(vecs)
         two_pi = 2 * np.pi
-        for a, b in zip(self.vectors, vecs):
-            if abs(np.dot(a, b) - two_pi) > tol:
-                return False
-        return True
+        dots = np.dot(self.vectors, vecs.T)
+        return bool(np.all(np.abs(dots - two_pi * np.eye(self.dim)) <= tol))
 
     def reciprocal_vectors(
         self, tol: float = RVEC_TOLERANCE, check: bool = False
-- 
2.43.0


From aa1d2369a01dc81b453ff25c96116043f2d9905a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:35 +0000
Subject: [PATCH 24/69] fix: reciprocal_vectors failed for more than three
 dimensions

---
 lattpy/basis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index 6925c8a..2110e2c 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -423,6 +423,8 @@ class LatticeBasis:
         two_pi = 2 * np.pi
         if self.dim == 1:
             return np.array([[two_pi / self.vectors[0, 0]]])
+        elif self.dim > 3:
+            return two_pi * np.linalg.inv(self.vectors).T
 
         # Convert basis vectors of the bravais lattice to 3D, compute
         # reciprocal vectors and convert back to actual dimension.
-- 
2.43.0


From dfcc7d2fe244f5e72061c35f3cac7a0398c66859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:52 +0000
Subject: [PATCH 25/69] fix: rotation about the x-axis rotated about the z-axis

---
 lattpy/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index 4b9fb39..44b8d5f 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -568,7 +568,7 @@ def rot(
     if thetay:
         r = np.dot(r, ry(thetay))
     if thetax:
-        r = np.dot(r, rz(thetax))
+        r = np.dot(r, rx(thetax))
     return r
 
 
-- 
2.43.0


From 260e1d4c554ca3d6b1e39c70c1ed206ef8d3d422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:02 +0000
Subject: [PATCH 26/69] fix: size of the Wigner-Seitz cell mixed up the axes of
 the limits

---
 lattpy/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index 44b8d5f..64d0f51 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -473,7 +473,7 @@ class WignerSeitzCell(VoronoiTree):
 
     @property
     def size(self):
-        return self.limits[1] - self.limits[0]
+        return self.limits[:, 1] - self.limits[:, 0]
 
     def check(self, points):
         cells = np.asarray(self.query(points)[1])
-- 
2.43.0


From 670c2a7f090bae108fb39575d2c5a80fff590680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:11 +0000
Subject: [PATCH 27/69] fix: errors without hint could not be printed

---
 lattpy/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lattpy/utils.py b/lattpy/utils.py
index 89f4b7b..5d1ec71 100644
--- a/lattpy/utils.py
+++ b/lattpy/utils.py
@@ -62,10 +62,10 @@ class ConfigurationError(LatticeError):
 
     @property
     def hint(self):
-        return self.args[1]
+        return self.args[1] if len(self.args) > 1 else ""
 
     def __str__(self):
-        msg, hint = self.args
+        msg, hint = self.msg, self.hint
         if hint:
             msg += f" ({hint})"
         return msg
-- 
2.43.0


From 5f5c9a87f4ff371269a7a52ea87ac80fc7a249f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:11 +0000
Subject: [PATCH 28/69] fix: adding an atom to an analyzed lattice failed and
 left the old analysis

---
 lattpy/structure.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 02a6f94..9b4cbb8 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -250,8 +250,9 @@ class LatticeStructure(LatticeBasis):
         if not isinstance(atom, Atom):
             atom = Atom(atom, **kwargs)
 
+        # The positions are stored as an array after analyzing the lattice
+        self._positions = [*self._positions, np.array(pos)]
         self._atoms.append(atom)
-        self._positions.append(np.asarray(pos))
 
         # Update number of base atoms if data is valid
         num_base = len(self._atoms)
@@ -262,6 +263,11 @@ class LatticeStructure(LatticeBasis):
         # Initial array for number of neighbour distances
         # for current number of atoms in the unit cell
         self._connections = np.zeros((num_base, num_base), dtype=np.int64)
+        # The lattice has to be analyzed again
+        self._base_neighbors = None
+        self._num_neighbors = None
+        self._distance_matrix = None
+        self._distances = None
 
         if neighbors:
             self.add_connections(neighbors)
-- 
2.43.0


From 94bfc01552751cc59c8be546fdb425d884b961d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:35 +0000
Subject: [PATCH 29/69] fix: get_base_atom_dict failed for one-dimensional
 lattices

---
 lattpy/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 9b4cbb8..c3ef1d6 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -918,7 +918,7 @@ class LatticeStructure(LatticeBasis):
         atom_pos = dict()
         for atom, pos in zip(self._atoms, self._positions):
             if atleast2d and self.dim == 1:
-                pos = np.array([pos, 0])
+                pos = np.append(pos, 0)
 
             if atom.name in atom_pos.keys():
                 atom_pos[atom].append(pos)
-- 
2.43.0


From 41f920b5d3d971ef9db96c4d39d982d819dc080a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:48 +0000
Subject: [PATCH 30/69] fix: build missed sites on the upper edge of shapes due
 to rounding

---
 lattpy/structure.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index c3ef1d6..fd678e3 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1047,6 +1047,9 @@ class LatticeStructure(LatticeBasis):
         if primitive:
             # Don't include the cells starting at the upper edges of the shape
             end = end - 1e-3 * self.norms
+        else:
+            # Include the sites on the upper edges of the shape
+            end = end + 1e-3
 
         # Estimate the translation vectors needed to reach all corners of the box
         # around the shape from all atom positions in the unit cell
-- 
2.43.0


From 3bf3f3bb1d6bb81190daec8f5d6ba7daab3453a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:52 +0000
Subject: [PATCH 31/69] fix: building a shape without any sites replaced the
 data before failing

---
 lattpy/lattice.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index a999357..c138e0c 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -467,6 +467,8 @@ class Lattice(LatticeStructure):
                 indices, positions, neighbors, distances_, min_neighbors
             )
             indices, positions, neighbors, distances_ = data
+        if not len(indices):
+            raise ValueError(f"The shape {shape} doesn't contain any lattice sites")
 
         # Set data of the lattice and update shape
         self.data.set(indices, positions, neighbors, distances_)
-- 
2.43.0


From 33ba024a896b54fec78a067ed54fdabaeb2b0aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:59 +0000
Subject: [PATCH 32/69] fix: periodic translation along cartesian axes skipped
 a lattice vector

The translation was estimated from the size of all unit cells and rounded, which
results in a gap for multi-atomic and oblique unit cells, e.g. the kagome lattice.
The size also overflowed for small index data-types.
---
 lattpy/lattice.py | 60 +++++++++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index c138e0c..cc92494 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -488,32 +488,40 @@ class Lattice(LatticeStructure):
 
     def _build_periodic_translation_vector(self, axes, primitive=False, indices=None):
         if indices is None:
-            indices = self.indices.copy()
-
-        axes = np.atleast_1d(axes)
-        if not primitive:
-            # Get lattice points limits
-            indices = indices.copy()[:, :-1]  # strip alpha
-            indices = np.unique(indices, axis=0)
-            positions = self.transform(indices)
-            limits = np.array([np.min(positions, axis=0), np.max(positions, axis=0)])
-            shape = limits[1] - limits[0]
-            # Get periodic point
-            ppoint = np.zeros(self.dim)
-            for ax in axes:
-                ppoint[ax] = shape[ax] + self.cell_size[ax] * 2 / 3
-            # Get periodic translation vector from point
-            pnvec = self.itransform(ppoint)
-            pnvec = np.round(pnvec, decimals=0)
-        else:
-            # Get index limits
-            limits = np.array([np.min(indices, axis=0), np.max(indices, axis=0)])
-            idx_size = (limits[1] - limits[0])[:-1]
-            # Get periodic translation vector from limits
-            pnvec = np.zeros_like(idx_size, dtype=np.int64)
-            for ax in axes:
-                pnvec[ax] = np.floor(idx_size[ax]) + 1
-        return pnvec.astype(np.int64)
+            indices = self.indices
+
+        # Get the maximal size of the sub-lattices
+        nvecs, alphas = np.asarray(indices[:, :-1], dtype=np.int64), indices[:, -1]
+        points = nvecs if primitive else self.transform(nvecs)
+        sizes = [np.ptp(points[alphas == alpha], axis=0) for alpha in np.unique(alphas)]
+        size = np.max(sizes, axis=0)
+
+        pnvec = np.zeros(self.dim, dtype=np.int64)
+        for ax in np.atleast_1d(axes):
+            if primitive:
+                # Get periodic translation vector from limits
+                pnvec[ax] = size[ax] + 1
+            else:
+                # Get periodic translation vector along the cartesian axis
+                pnvec += self._get_axis_translation(ax, size[ax])
+        return pnvec
+
+    def _get_axis_translation(self, ax, size):
+        """Returns the shortest translation along a cartesian axis exceeding a size."""
+        axis = np.zeros(self.dim)
+        axis[ax] = 1.0
+        # Find the shortest lattice vector in the direction of the axis
+        direction = self.itransform(axis)
+        direction = direction / np.min(np.abs(direction[np.abs(direction) > 1e-8]))
+        for factor in range(1, 13):
+            nvec = np.round(factor * direction)
+            if np.allclose(nvec, factor * direction, atol=1e-6):
+                length = self.translate(nvec)[ax]
+                num = np.floor(size / length + 1e-6) + 1
+                return (num * nvec).astype(np.int64)
+        # No lattice vector in the direction of the axis: use nearest lattice point
+        nvec = self.itransform(axis * (size + self.cell_size[ax] * 2 / 3))
+        return np.round(nvec).astype(np.int64)
 
     def periodic_translation_vectors(self, axes, primitive=False):
         """Constrcuts all translation vectors for periodic boundary conditions.
-- 
2.43.0


From 4c66b14ba50ce0e8dec03ab0bef81ba876118147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:55 +0000
Subject: [PATCH 33/69] fix: site_mask returned integers instead of the
 documented boolean mask

---
 lattpy/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index 10ab312..4913e05 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -718,11 +718,11 @@ class LatticeData:
         mins = [(x if x is not None else -np.inf) for x in mins]
         maxs = [(x if x is not None else +np.inf) for x in maxs]
         limits = np.array([mins, maxs])
-        mask = 1
+        mask = np.ones(self.num_sites, dtype=bool)
         for ax in range(self.dim):
             ax_data = self.positions[:, ax]
             mask &= (limits[0, ax] <= ax_data) & (ax_data <= limits[1, ax])
-        return np.asarray(1 - mask if invert else mask)
+        return ~mask if invert else mask
 
     def find_sites(
         self,
-- 
2.43.0


From 9e9d1c9d9767eaecc2e011b699b55cfe3949707f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:10 +0000
Subject: [PATCH 34/69] fix: plot grids used a removed matplotlib keyword

---
 lattpy/basis.py     | 2 +-
 lattpy/disptools.py | 6 +++---
 lattpy/lattice.py   | 2 +-
 lattpy/structure.py | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index 2110e2c..d54299b 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -701,7 +701,7 @@ class LatticeBasis:
         # Configure grid
         if grid and self.dim < 3:
             ax.set_axisbelow(True)
-            ax.grid(b=True, which="major")
+            ax.grid(True, which="major")
         # Adjust margin
         if isinstance(margins, float):
             margins = [margins] * self.dim
diff --git a/lattpy/disptools.py b/lattpy/disptools.py
index c94c6f1..be95d47 100644
--- a/lattpy/disptools.py
+++ b/lattpy/disptools.py
@@ -67,7 +67,7 @@ def bandpath_subplots(ticks, labels, xlabel="$k$", ylabel="$E(k)$", grid="both")
         if not isinstance(grid, str):
             grid = "both"
         ax.set_axisbelow(True)
-        ax.grid(b=True, which="major", axis=grid)
+        ax.grid(True, which="major", axis=grid)
     return fig, ax
 
 
@@ -143,9 +143,9 @@ def disp_dos_subplots(
     ax2.set_xticks([0])
     if grid:
         ax1.set_axisbelow(True)
-        ax1.grid(b=True, which="major", axis=grid)
+        ax1.grid(True, which="major", axis=grid)
         ax2.set_axisbelow(True)
-        ax2.grid(b=True, which="major", axis=grid)
+        ax2.grid(True, which="major", axis=grid)
     return fig, axs
 
 
diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index cc92494..bed0bc4 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -1314,7 +1314,7 @@ class Lattice(LatticeStructure):
         # Configure grid
         if grid and self.dim < 3:
             ax.set_axisbelow(True)
-            ax.grid(b=True, which="major")
+            ax.grid(True, which="major")
         # Adjust margin
         if isinstance(margins, float):
             margins = [margins] * self.dim
diff --git a/lattpy/structure.py b/lattpy/structure.py
index fd678e3..0a410df 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1546,7 +1546,7 @@ class LatticeStructure(LatticeBasis):
         # Configure grid
         if grid and self.dim < 3:
             ax.set_axisbelow(True)
-            ax.grid(b=True, which="major")
+            ax.grid(True, which="major")
         # Adjust margin
         if isinstance(margins, float):
             margins = [margins] * self.dim
-- 
2.43.0


From aafcedeecf9128ffed3150706f2b9c2e46204081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:10 +0000
Subject: [PATCH 35/69] fix: index labels could not be drawn for 1D lattices

---
 lattpy/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/plotting.py b/lattpy/plotting.py
index 8e4db13..6169a64 100644
--- a/lattpy/plotting.py
+++ b/lattpy/plotting.py
@@ -467,7 +467,7 @@ def text(ax, strings, positions, offset=None, **kwargs):
 
     for s, pos in zip(strings, positions):
         if len(pos) == 1:
-            pos = [pos, 0]
+            pos = [pos[0], 0]
         tpos = np.asarray(pos) + offset
         txt = ax.text(*tpos, s=s, **kwargs)
         texts.append(txt)
-- 
2.43.0


From ad2ef22675c47f8d3b7f5cd42c1b3de384252262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:10 +0000
Subject: [PATCH 36/69] fix: cell size of bases with only negative components
 was too small

---
 lattpy/spatial.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index 64d0f51..cb7a4bb 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -238,6 +238,7 @@ def cell_size(vectors: ArrayLike) -> np.ndarray:
     """
     max_values = np.max(vectors, axis=0)
     min_values = np.min(vectors, axis=0)
+    max_values[max_values < 0] = 0
     min_values[min_values > 0] = 0
     return max_values - min_values
 
-- 
2.43.0


From 7592016008a864fe4b7afe68953aae75bc525908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:33 +0000
Subject: [PATCH 37/69] fix: get_cell_index treated numpy integers as arrays of
 super indices

---
 lattpy/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index d54299b..ebdf597 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -636,7 +636,7 @@ class LatticeBasis:
             The cell index. Of shape (D,) if `super_index` is an integer, otherwise
             of shape (N, D).
         """
-        single = isinstance(super_index, int)
+        single = isinstance(super_index, (int, np.integer))
         super_index = np.atleast_1d(super_index)
 
         indices = np.zeros((len(super_index), self.dim), dtype=np.int64)
-- 
2.43.0


From 350b6e9213adf586e9c2fb3adced12760d0aff6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:33 +0000
Subject: [PATCH 38/69] fix: a basis shared its vectors with the array or basis
 it was created from

---
 lattpy/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index ebdf597..0499143 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -93,7 +93,7 @@ class LatticeBasis:
         if isinstance(basis, LatticeBasis):
             basis = basis.vectors
         # Vector basis
-        self._vectors = np.atleast_2d(basis).T
+        self._vectors = np.array(basis, ndmin=2).T
         self._vectors_inv = np.linalg.inv(self._vectors)
         self._dim = len(self._vectors)
         self._cell_size = cell_size(self.vectors)
-- 
2.43.0


From 175e8bacb3a1e72b4d8c34f8e227f4b43acee32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:33 +0000
Subject: [PATCH 39/69] fix: donuts were always plotted at the origin

---
 lattpy/shape.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lattpy/shape.py b/lattpy/shape.py
index 63c4413..db1f4af 100644
--- a/lattpy/shape.py
+++ b/lattpy/shape.py
@@ -244,8 +244,8 @@ class Donut(AbstractShape):
         n = 100
 
         theta = np.linspace(0, 2 * np.pi, n, endpoint=True)
-        xs = np.outer(self.radii, np.cos(theta))
-        ys = np.outer(self.radii, np.sin(theta))
+        xs = self.pos[0] + np.outer(self.radii, np.cos(theta))
+        ys = self.pos[1] + np.outer(self.radii, np.sin(theta))
         # in order to have a closed area, the circles
         # should be traversed in opposite directions
         xs[1, :] = xs[1, ::-1]
-- 
2.43.0


From 90a42251dfd7f55ec452459dde78fcdad52523f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:53 +0000
Subject: [PATCH 40/69] fix: set_periodic of a lattice that is not analyzed
 dropped the periodic neighbors before failing

---
 lattpy/lattice.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index bed0bc4..10efe8e 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -704,6 +704,7 @@ class Lattice(LatticeStructure):
             axis = np.atleast_1d(axis)
             if np.any(axis < -self.dim) or np.any(axis >= self.dim):
                 raise IndexError(f"Periodic axis {axis} out of range")
+            self._assert_analyzed()
             self.data.remove_periodic()
             pidx, pdists, pnvecs, paxs = self._compute_pneighbors(axis, primitive)
             self.data.set_periodic(pidx, pdists, pnvecs, paxs)
-- 
2.43.0


From 44a04bdf4a6e345add4445522595a75abde1e339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:53 +0000
Subject: [PATCH 41/69] fix: appending to a lattice that is not analyzed
 modified the data before failing

---
 lattpy/lattice.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 10efe8e..46b3ef7 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -836,6 +836,7 @@ class Lattice(LatticeStructure):
         sort_reverse=False,
         primitive=False,
     ):
+        self._assert_analyzed()
         indices2 = np.array(ind, dtype=np.int64)
         positions2 = np.copy(pos)
         neighbors2 = np.copy(neighbors)
-- 
2.43.0


From b5675276d2aa60120816aaadbcea1a9837384fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:15 +0000
Subject: [PATCH 42/69] fix: lattices without atoms or without built data could
 not be hashed or compared

---
 lattpy/lattice.py   | 1 +
 lattpy/structure.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 46b3ef7..e223913 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -1170,6 +1170,7 @@ class Lattice(LatticeStructure):
         """
         lines = list()
         for key, values in self.todict().items():
+            values = "-" if values is None else values
             head = key + ":"
             lines.append(f"{head:<15}" + "; ".join(str(x) for x in values))
         return "\n".join(lines)
diff --git a/lattpy/structure.py b/lattpy/structure.py
index 0a410df..1b5bebc 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1385,6 +1385,7 @@ class LatticeStructure(LatticeBasis):
         """
         lines = list()
         for key, values in self.todict().items():
+            values = "-" if values is None else values
             head = key + ":"
             lines.append(f"{head:<15}" + "; ".join(str(x) for x in values))
         return "\n".join(lines)
-- 
2.43.0


From f65ee17eef2d4744aeb901e31465626bf3a5be37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:15 +0000
Subject: [PATCH 43/69] fix: structures created from a dictionary shared the
 connections with the original

---
 lattpy/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 1b5bebc..9129f89 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1371,7 +1371,7 @@ class LatticeStructure(LatticeBasis):
         self = cls(d["vectors"])
         for pos, at in zip(d["positions"], d["atoms"]):
             self.add_atom(pos, at)
-        self._connections = d["connections"]
+        self._connections = np.array(d["connections"])
         self.analyze()
         return self
 
-- 
2.43.0


From f669e791de4502d13bbb55b6c8e88f77f945cb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:01 +0000
Subject: [PATCH 44/69] fix: interweave truncated floating point values if the
 first array holds integers

---
 lattpy/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index cb7a4bb..dc9d3ca 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -109,7 +109,7 @@ def interweave(arrays: Sequence[np.ndarray]) -> np.ndarray:
     """
     shape = list(arrays[0].shape)
     shape[0] = sum(x.shape[0] for x in arrays)
-    result = np.empty(shape, dtype=arrays[0].dtype)
+    result = np.empty(shape, dtype=np.result_type(*arrays))
     n = len(arrays)
     for i, arr in enumerate(arrays):
         result[i::n] = arr
-- 
2.43.0


From 669ba7837d67988706cf0db90b74b58272341e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:01 +0000
Subject: [PATCH 45/69] fix: min_dtype overflowed for arrays of small or
 unsigned integer types

---
 lattpy/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lattpy/utils.py b/lattpy/utils.py
index 5d1ec71..9dbe184 100644
--- a/lattpy/utils.py
+++ b/lattpy/utils.py
@@ -161,10 +161,11 @@ def min_dtype(
     dtype : dtype
         The required dtype.
     """
+    # Use Python numbers to prevent overflows of the input data type
+    amin, amax = np.min(a).item(), np.max(a).item()
     if signed:
-        a = -np.max(np.abs(a)) - 1
+        a = -max(abs(amin), abs(amax)) - 1
     else:
-        amin, amax = np.min(a), np.max(a)
         if amin < 0:
             a = -amax - 1 if abs(amin) <= amax else amin
         else:
-- 
2.43.0


From 56622d3ee3777a176b8ce55b3ea50f1516b8532d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:20 +0000
Subject: [PATCH 46/69] fix: building with an invalid periodic axis replaced
 the lattice before failing

---
 lattpy/lattice.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index e223913..32a8725 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -452,6 +452,7 @@ class Lattice(LatticeStructure):
 
         self._assert_connections()
         self._assert_analyzed()
+        periodic = self._parse_periodic_axes(periodic)
 
         logger.debug("Building lattice: %s at %s", shape, pos)
 
@@ -651,6 +652,15 @@ class Lattice(LatticeStructure):
                 del pnvecs[k]
         return pidx, pdists, pnvecs, paxs
 
+    def _parse_periodic_axes(self, axis):
+        """Convert the argument for the periodic axes to an array or ``None``."""
+        if axis is None or axis is False:
+            return None
+        axis = np.arange(self.dim) if axis is True else np.array(axis, ndmin=1)
+        if np.any(axis < -self.dim) or np.any(axis >= self.dim):
+            raise IndexError(f"Periodic axis {axis} out of range")
+        return axis
+
     def set_periodic(
         self, axis: Union[bool, int, Sequence[int]] = None, primitive: bool = None
     ):
@@ -680,11 +690,7 @@ class Lattice(LatticeStructure):
         Uses the same coordinate system (cartesian or primtive basis vectors)
         as chosen for building the lattice.
         """
-        if isinstance(axis, bool):
-            if axis is True:
-                axis = np.arange(self.dim)
-            else:
-                axis = None
+        axis = self._parse_periodic_axes(axis)
         if primitive is not None:
             warnings.warn(
                 "The `primitive` argument is deprecated and will be removed in "
@@ -701,9 +707,6 @@ class Lattice(LatticeStructure):
             self.data.remove_periodic()
             self.periodic_axes = list()
         else:
-            axis = np.atleast_1d(axis)
-            if np.any(axis < -self.dim) or np.any(axis >= self.dim):
-                raise IndexError(f"Periodic axis {axis} out of range")
             self._assert_analyzed()
             self.data.remove_periodic()
             pidx, pdists, pnvecs, paxs = self._compute_pneighbors(axis, primitive)
-- 
2.43.0


From 5adc2e49ec51326207291555dafa769d31d4d882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:20 +0000
Subject: [PATCH 47/69] fix: copies of atoms restored deleted parameters and
 shared mutable values

---
 lattpy/atom.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lattpy/atom.py b/lattpy/atom.py
index fb4fa6d..3547452 100644
--- a/lattpy/atom.py
+++ b/lattpy/atom.py
@@ -11,6 +11,7 @@
 """Objects for representing atoms and the unitcell of a lattice."""
 
 import itertools
+from copy import deepcopy
 from collections import abc
 from typing import Union, Any, Iterator, Dict
 
@@ -81,7 +82,9 @@ class Atom(abc.MutableMapping):
 
     def copy(self) -> "Atom":
         """Creates a deep copy of the ``Atom`` instance."""
-        return Atom(self.name, weight=self.weight, **self._params.copy())
+        atom = Atom(self._name, weight=self._weight)
+        atom._params = deepcopy(self._params)
+        return atom
 
     def get(self, key: str, default=None) -> Any:
         try:
-- 
2.43.0


From 5500270f11dd45d87e06c2ac15cfa76cbc6ae1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:20 +0000
Subject: [PATCH 48/69] fix: atoms could not be looked up with the integers of
 the lattice indices

---
 lattpy/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 9129f89..af4bb00 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -356,7 +356,7 @@ class LatticeStructure(LatticeBasis):
         """
         if isinstance(atom, Atom):
             return atom
-        elif isinstance(atom, int):
+        elif isinstance(atom, (int, np.integer)):
             return self._atoms[atom]
         else:
             for at in self._atoms:
-- 
2.43.0


From bad75dde662402705b023fc2a1a24b71849918ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:59 +0000
Subject: [PATCH 49/69] fix: connecting without atoms failed with an unrelated
 error

---
 lattpy/structure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index af4bb00..f274e4e 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -412,6 +412,7 @@ class LatticeStructure(LatticeBasis):
 
         >>> latt.add_connection("B", "B", num_distances=1)
         """
+        self._assert_atoms()
         alpha1 = np.atleast_1d(self.get_alpha(atom1))
         alpha2 = np.atleast_1d(self.get_alpha(atom2))
         for i, j in itertools.product(alpha1, alpha2):
@@ -449,6 +450,7 @@ class LatticeStructure(LatticeBasis):
 
         >>> latt.add_connections(num_distances=1)
         """
+        self._assert_atoms()
         self._connections.fill(num_distances)
         if analyze:
             self.analyze()
-- 
2.43.0


From e9c47229716d24f6369b113c1c9e381708042996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:09 +0000
Subject: [PATCH 50/69] fix: removing an empty list of sites failed

---
 lattpy/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lattpy/data.py b/lattpy/data.py
index 4913e05..1b70c80 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -326,6 +326,8 @@ class LatticeData:
 
     def remove(self, sites):
         sites = np.atleast_1d(sites)
+        if not sites.size:
+            return
         # Every site can only be removed once
         sites = np.unique(np.where(sites < 0, sites + self.num_sites, sites))
 
-- 
2.43.0


From 2b1e860520180bd653be22d4169d0d6e25a15039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:09 +0000
Subject: [PATCH 51/69] fix: appending with an invalid sort axis changed the
 lattice before failing

---
 lattpy/lattice.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 32a8725..e9f3d2c 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -840,6 +840,8 @@ class Lattice(LatticeStructure):
         primitive=False,
     ):
         self._assert_analyzed()
+        if sort_axis is not None and not -self.dim <= sort_axis <= self.dim:
+            raise IndexError(f"Sort axis {sort_axis} out of range")
         indices2 = np.array(ind, dtype=np.int64)
         positions2 = np.copy(pos)
         neighbors2 = np.copy(neighbors)
-- 
2.43.0


From 46dc1c6234e3c07371d9bfb3e56efd9d7f4d6691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:37 +0000
Subject: [PATCH 52/69] fix: removing a negative site number out of range
 removed another site

---
 lattpy/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lattpy/data.py b/lattpy/data.py
index 1b70c80..7a45174 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -328,6 +328,8 @@ class LatticeData:
         sites = np.atleast_1d(sites)
         if not sites.size:
             return
+        if np.any(sites < -self.num_sites) or np.any(sites >= self.num_sites):
+            raise IndexError(f"Sites {sites} out of range")
         # Every site can only be removed once
         sites = np.unique(np.where(sites < 0, sites + self.num_sites, sites))
 
-- 
2.43.0


From 73a9a83fce8e539c1957fd937834daa93978ad0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:44 +0000
Subject: [PATCH 53/69] fix: lookup tables of lists had wrong indices

---
 lattpy/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lattpy/utils.py b/lattpy/utils.py
index 9dbe184..e957cac 100644
--- a/lattpy/utils.py
+++ b/lattpy/utils.py
@@ -133,6 +133,7 @@ def create_lookup_table(
     indices : np.ndarray
         The corresponding indices in the same shape as the input-array.
     """
+    array = np.asarray(array)
     values = np.sort(np.unique(array))
     if np.array(len(values)).astype(dtype) != len(values):
         dtype = np.min_scalar_type(len(values))
-- 
2.43.0


From 48b0f465461ce5e0a0700872ef290f6f22265349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:44 +0000
Subject: [PATCH 54/69] fix: cell_volume failed for lists of vectors in one and
 more than three dimensions

---
 lattpy/spatial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index dc9d3ca..a56b26b 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -268,9 +268,10 @@ def cell_volume(vectors: ArrayLike) -> float:
     vol: float
         The volume of the unit cell.
     """
+    vectors = np.asarray(vectors)
     dim = len(vectors)
     if dim == 1:
-        v = float(vectors)
+        v = vectors.item()
     elif dim == 2:
         v = np.cross(vectors[0], vectors[1])
     elif dim == 3:
-- 
2.43.0


From bbb24316c884efc1aa4e0a049f885d6b48c6ddb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:44 +0000
Subject: [PATCH 55/69] fix: index grids overflowed for limits with a small
 integer type

---
 lattpy/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index a56b26b..20769c0 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -139,7 +139,7 @@ def vindices(
     """
     if dtype is None:
         dtype = min_dtype(limits, signed=True)
-    limits = np.asarray(limits)
+    limits = np.asarray(limits, dtype=np.int64)
     dim = limits.shape[0]
 
     # Create meshgrid reshape grid to array of indices
-- 
2.43.0


From 968514812c511abad430945cdaf1e1cc4ac55aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:22 +0000
Subject: [PATCH 56/69] fix: points of a dispersion path changed with the
 passed array

---
 lattpy/disptools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/disptools.py b/lattpy/disptools.py
index be95d47..834c285 100644
--- a/lattpy/disptools.py
+++ b/lattpy/disptools.py
@@ -337,7 +337,7 @@ class DispersionPath:
         """
         if not name:
             name = str(len(self.points))
-        point = np.asarray(point)
+        point = np.array(point)
         if self.dim:
             point = point[: self.dim]
         else:
-- 
2.43.0


From b333163ff8e0dde94feb91f336b02014509b952a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:16 +0000
Subject: [PATCH 57/69] fix: plot_cell missed neighbors of atoms with several
 kinds of neighbors

---
 lattpy/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index f274e4e..985e603 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1519,7 +1519,7 @@ class LatticeStructure(LatticeBasis):
             position_arr = [list() for _ in range(self.num_base)]
             for i in range(self.num_base):
                 p1 = self.atom_positions[i]
-                for distidx in range(self.num_distances):
+                for distidx in range(int(np.sum(self._connections[i]))):
                     try:
                         indices = self.get_neighbors(alpha=i, distidx=distidx)
                         positions = self.get_positions(indices)
-- 
2.43.0


From 1625239be2d48bd325fbb2ee32a208f5ca56c9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:42 +0000
Subject: [PATCH 58/69] fix: cells with different kinds of faces could not be
 drawn

---
 lattpy/spatial.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index 20769c0..7b96ae2 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -431,13 +431,14 @@ class VoronoiTree:
             segments = np.array([self.vertices[i] for i in self.edges])
             draw_lines(ax, segments, color=color, lw=lw)
         elif self.dim == 3:
+            # Repeat the last vertex, the faces can have different numbers of vertices
+            num = max(len(i) for i in self.edges)
+            edges = [np.pad(i, (0, num - len(i)), mode="edge") for i in self.edges]
             if draw:
-                segments = np.array(
-                    [self.vertices[np.append(i, i[0])] for i in self.edges]
-                )
+                segments = np.array([self.vertices[np.append(i, i[0])] for i in edges])
                 draw_lines(ax, segments, color=color, lw=lw)
             if fill:
-                surfaces = np.array([self.vertices[i] for i in self.edges])
+                surfaces = np.array([self.vertices[i] for i in edges])
                 draw_surfaces(ax, surfaces, color=color, alpha=alpha)
 
         if self.dim == 3:
-- 
2.43.0


From fa6eda4393a17b1717b7a83e23c677254b9f364d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:28 +0000
Subject: [PATCH 59/69] fix: keep super indices of large shapes exact

---
 lattpy/basis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index 0499143..53fb223 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -612,8 +612,9 @@ class LatticeBasis:
         index = np.atleast_2d(index)
 
         super_indices = np.zeros((len(index)), dtype=np.int64)
+        strides = [np.prod(shape[d + 1 :], dtype=np.int64) for d in range(self.dim)]
         for i, ind in enumerate(index):
-            si = sum(ind[d] * np.prod(shape[d + 1 :]) for d in range(self.dim))
+            si = sum(ind[d] * strides[d] for d in range(self.dim))
             super_indices[i] = si
 
         return super_indices[0] if single else super_indices
-- 
2.43.0


From 1a7f7f1773527bac2ccde88b88250fbaea4f8715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:12 +0000
Subject: [PATCH 60/69] fix: a periodic axis named as positive and negative
 number was used twice

---
 lattpy/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index e9f3d2c..8dc5d1e 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -543,7 +543,7 @@ class Lattice(LatticeStructure):
             The first item of each element is the axis, the second the
             corresponding translation vector.
         """
-        axes = np.unique(np.atleast_1d(axes).astype(np.int64))
+        axes = np.unique(np.atleast_1d(axes).astype(np.int64) % self.dim)
         # Translation vectors of the single axes
         nvecs = [self._build_periodic_translation_vector(a, primitive) for a in axes]
         # Add all combinations of the translations (up to a sign) to ensure all
-- 
2.43.0


From 7b3281c9b9a31ac828eec717351a611b477fe687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:25 +0000
Subject: [PATCH 61/69] fix: keep own points in convex hulls

---
 lattpy/shape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/shape.py b/lattpy/shape.py
index db1f4af..02ab278 100644
--- a/lattpy/shape.py
+++ b/lattpy/shape.py
@@ -284,7 +284,7 @@ class ConvexHull(AbstractShape):
     def __init__(self, points):
         dim = len(points[0])
         super().__init__(dim)
-        self.hull = scipy.spatial.ConvexHull(points)
+        self.hull = scipy.spatial.ConvexHull(np.array(points))
 
     def limits(self):
         points = self.hull.points
-- 
2.43.0


From 9c4acab62acbd5dae2a7bf448fcede54c0efa077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:23 +0000
Subject: [PATCH 62/69] fix: keep the atoms of large unit cells in the data map

---
 lattpy/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index 7a45174..897614a 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -675,7 +675,7 @@ class LatticeData:
         datamap : DataMap
         """
         if self._dmap is None:
-            alphas = self.indices[:, -1].astype(np.int8)
+            alphas = self.indices[:, -1].astype(np.int64)
             # Build index pairs and corresponding distance array
             dtype = np.min_scalar_type(self.num_sites)
             sites = np.arange(self.num_sites, dtype=dtype)
-- 
2.43.0


From ceb270a82cd6b7be148bd556da7ec4174a38e18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:19 +0000
Subject: [PATCH 63/69] fix: keep lattice vectors in double precision

---
 lattpy/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index 53fb223..e1c3719 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -93,7 +93,7 @@ class LatticeBasis:
         if isinstance(basis, LatticeBasis):
             basis = basis.vectors
         # Vector basis
-        self._vectors = np.array(basis, ndmin=2).T
+        self._vectors = np.array(basis, dtype=np.float64, ndmin=2).T
         self._vectors_inv = np.linalg.inv(self._vectors)
         self._dim = len(self._vectors)
         self._cell_size = cell_size(self.vectors)
-- 
2.43.0


From a693e0d1834f117beebe2ea6133ee5ebcac0f04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:21 +0000
Subject: [PATCH 64/69] fix: keep sizes and positions of shapes in double
 precision

---
 lattpy/shape.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lattpy/shape.py b/lattpy/shape.py
index 02ab278..6603b9b 100644
--- a/lattpy/shape.py
+++ b/lattpy/shape.py
@@ -23,7 +23,7 @@ class AbstractShape(ABC):
 
     def __init__(self, dim, pos=None):
         self.dim = dim
-        self.pos = np.zeros(dim) if pos is None else np.array(pos)
+        self.pos = np.zeros(dim) if pos is None else np.array(pos, np.float64)
 
     @abstractmethod
     def limits(self):
@@ -86,7 +86,7 @@ class Shape(AbstractShape):
         if not hasattr(shape, "__len__"):
             shape = [shape]
         super().__init__(len(shape), pos)
-        self.size = np.array(shape)
+        self.size = np.array(shape, np.float64)
         self.basis = None if basis is None else np.array(basis)
 
     def _build(self):
@@ -182,7 +182,7 @@ class Circle(AbstractShape):
 
     def __init__(self, pos, radius):
         super().__init__(len(pos), pos)
-        self.radius = radius
+        self.radius = float(radius)
 
     def limits(self):
         rad = np.full(self.dim, self.radius)
@@ -227,7 +227,7 @@ class Donut(AbstractShape):
 
     def __init__(self, pos, radius_outer, radius_inner):
         super().__init__(len(pos), pos)
-        self.radii = np.array([radius_inner, radius_outer])
+        self.radii = np.array([radius_inner, radius_outer], np.float64)
 
     def limits(self):
         rad = np.full(self.dim, self.radii[1])
-- 
2.43.0


From 7677f60c8dd0b3e512ed8cadc0e78e0e2466444e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:00 +0000
Subject: [PATCH 65/69] fix: compute distances and cell sizes in double
 precision

---
 lattpy/spatial.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index 7b96ae2..3af1ec0 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -57,7 +57,7 @@ def distance(r1: np.ndarray, r2: np.ndarray, decimals: int = None) -> float:
     distance: float
         The distance between the input points.
     """
-    dist = math.sqrt(np.sum(np.square(r1 - r2)))
+    dist = math.sqrt(np.sum(np.square(np.subtract(r1, r2, dtype=np.float64))))
     if decimals is not None:
         dist = round(dist, decimals)
     return dist
@@ -82,7 +82,8 @@ def distances(r1: ArrayLike, r2: ArrayLike, decimals: int = None) -> np.ndarray:
     """
     r1 = np.atleast_2d(r1)
     r2 = np.atleast_2d(r2)
-    dist = np.sqrt(np.sum(np.square(r1 - r2), axis=1))
+    diff = np.subtract(r1, r2, dtype=np.float64)
+    dist = np.sqrt(np.sum(np.square(diff), axis=1))
     if decimals is not None:
         dist = np.round(dist, decimals=decimals)
     return dist
@@ -236,6 +237,7 @@ def cell_size(vectors: ArrayLike) -> np.ndarray:
     -------
     size: np.ndarray
     """
+    vectors = np.asarray(vectors, dtype=np.float64)
     max_values = np.max(vectors, axis=0)
     min_values = np.min(vectors, axis=0)
     max_values[max_values < 0] = 0
@@ -268,7 +270,7 @@ def cell_volume(vectors: ArrayLike) -> float:
     vol: float
         The volume of the unit cell.
     """
-    vectors = np.asarray(vectors)
+    vectors = np.asarray(vectors, dtype=np.float64)
     dim = len(vectors)
     if dim == 1:
         v = vectors.item()
-- 
2.43.0


From cd94fe101bcd610cb653ee3567b857c3fe4f6043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:28 +0000
Subject: [PATCH 66/69] fix: compute grids of narrow integer limits without
 overflow

---
 lattpy/spatial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index 3af1ec0..bea0e9b 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -216,7 +216,8 @@ def vrange(
         step = np.ones_like(start) * step
 
     # Create grid and reshape to array of vectors
-    slices = [slice(i, f, s) for i, f, s in zip(start, stop, step)]
+    steps = np.asarray(step).tolist()
+    slices = [slice(*lim) for lim in zip(start.tolist(), stop.tolist(), steps)]
     array = np.mgrid[slices].reshape(len(slices), -1).T
     # Optionally sort array along given axis
     if sort_axis is not None:
-- 
2.43.0


From dbb1736d39c0105ae6a5fb11c803d6cb8d161a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:08 +0000
Subject: [PATCH 67/69] fix: find neighbor cells of lattices with tiny lattice
 constants

---
 lattpy/basis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index e1c3719..b7595e8 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -532,11 +532,11 @@ class LatticeBasis:
         points = np.dot(factors, self.vectors[np.newaxis, :, :])[:, 0, :]
 
         # Compute distances to origin for all points
-        distances = np.linalg.norm(points, axis=1)
+        distances = np.linalg.norm(points, axis=1) / scale
 
         # Return points with the given distance (the first distance is the origin)
-        unique = np.unique(np.round(distances / scale, decimals=8))
-        maxdist = scale * unique[distidx + 1]
+        unique = np.unique(np.round(distances, decimals=8))
+        maxdist = unique[distidx + 1]
         indices = np.where(comparison(distances, maxdist))[0]
         factors = factors[indices]
 
-- 
2.43.0


From 2da91c271a48b8b2a49784d0fe4ef342e5ffaf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:42 +0000
Subject: [PATCH 68/69] fix: create atoms from dictionaries in add_atom

---
 lattpy/structure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 985e603..672d943 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -247,7 +247,9 @@ class LatticeStructure(LatticeBasis):
         if any(np.all(pos == x) for x in self._positions):
             raise SiteOccupiedError(atom, pos)
 
-        if not isinstance(atom, Atom):
+        if isinstance(atom, dict):
+            atom = Atom(**{**atom, **kwargs})
+        elif not isinstance(atom, Atom):
             atom = Atom(atom, **kwargs)
 
         # The positions are stored as an array after analyzing the lattice
-- 
2.43.0


From f7a5ad38b2a485190b8c6b2a5911076a494d9990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:42 +0000
Subject: [PATCH 69/69] fix: accept numpy integers as size of finite hypercubic
 lattices

---
 lattpy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/__init__.py b/lattpy/__init__.py
index f5d176b..f10e544 100644
--- a/lattpy/__init__.py
+++ b/lattpy/__init__.py
@@ -441,7 +441,7 @@ def finite_hypercubic(s, a=1.0, atom=None, neighbors=1, primitive=True, periodic
     """
     import numpy as np
 
-    if isinstance(s, (float, int)):
+    if not hasattr(s, "__len__") and not isinstance(s, AbstractShape):
         s = (s,)
 
     dim = s.dim if isinstance(s, AbstractShape) else len(s)
-- 
2.43.0

