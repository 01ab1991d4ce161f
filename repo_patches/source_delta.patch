From affa759bb8156e9c52c78e0a63c7196b1e1c8676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:09 +0000
Subject: [PATCH 01/33] fix: read SDF pose rotations as roll, pitch, yaw

The angles were handed to the ZYX conversion in roll, pitch, yaw order, so roll
and yaw were swapped for every link pose with a rotation.
---
 src/pytorch_kinematics/sdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index 32ac177..2a2a960 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -14,7 +14,8 @@ def _convert_transform(pose):
     if pose is None:
         return tf.Transform3d()
     else:
-        return tf.Transform3d(rot=tf.euler_angles_to_matrix(torch.tensor(pose[3:]), "ZYX"), pos=pose[:3])
+        # SDF poses are "x y z roll pitch yaw" with R = Rz(yaw) Ry(pitch) Rx(roll)
+        return tf.Transform3d(rot=tf.euler_angles_to_matrix(torch.tensor(pose[3:][::-1]), "ZYX"), pos=pose[:3])
 
 
 def _convert_visuals(visuals):
-- 
2.43.0


From ec6cfa4fb12f1fba65d313861f7fc1fd8f8b26fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:09 +0000
Subject: [PATCH 02/33] fix: continuous URDF joints have no position limits

A limit element on a continuous joint (velocity and effort only) made its
position limits (0, 0), so clamping and limit enforcement pinned it to zero.
---
 src/pytorch_kinematics/urdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/urdf.py b/src/pytorch_kinematics/urdf.py
index 85d99fa..625ffeb 100644
--- a/src/pytorch_kinematics/urdf.py
+++ b/src/pytorch_kinematics/urdf.py
@@ -46,7 +46,8 @@ def _build_chain_recurse(root_frame, lmap, joints):
     for j in joints:
         if j.parent == root_frame.link.name:
             try:
-                limits = (j.limit.lower, j.limit.upper)
+                # continuous joints have no position limits; their limit element only bounds velocity and effort
+                limits = None if j.type == 'continuous' else (j.limit.lower, j.limit.upper)
             except AttributeError:
                 limits = None
             # URDF assumes symmetric velocity and effort limits
-- 
2.43.0


From c56cd97155d118149f9afc87f9cd99e2b3802789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:09 +0000
Subject: [PATCH 03/33] fix: unlimited MJCF joints have no position limits

MuJoCo reports range (0, 0) for a joint without limits; it was taken as a limit.
---
 src/pytorch_kinematics/mjcf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/mjcf.py b/src/pytorch_kinematics/mjcf.py
index 3dc1857..e83109c 100644
--- a/src/pytorch_kinematics/mjcf.py
+++ b/src/pytorch_kinematics/mjcf.py
@@ -40,7 +40,8 @@ def _build_chain_recurse(m, parent_frame, parent_body):
                 joint_offset = tf.Transform3d(pos=joint.pos)
                 child_joint = frame.Joint(joint.name, offset=joint_offset, axis=joint.axis,
                                           joint_type=JOINT_TYPE_MAP[joint.type[0]],
-                                          limits=(joint.range[0], joint.range[1]))
+                                          limits=(joint.range[0], joint.range[1])
+                                          if m.jnt_limited[body.jntadr[0]] else None)
             else:
                 child_joint = frame.Joint(body.name + "_fixed_joint")
             child_link = frame.Link(body.name, offset=tf.Transform3d(rot=body.quat, pos=body.pos))
-- 
2.43.0


From 51d3a00aff33b8fcb164d32c5d33a602540218dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:09 +0000
Subject: [PATCH 04/33] fix: accept a mapping of scalar joint values in serial
 chains

The base class accepts it, the serial chain raised IndexError.
---
 src/pytorch_kinematics/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index d14d008..7cc9a1f 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -191,7 +191,7 @@ def get_batch_size(th):
         return th.shape[0]
     elif isinstance(th, dict):
         elem_shape = get_dict_elem_shape(th)
-        return elem_shape[0]
+        return elem_shape[0] if len(elem_shape) > 0 else 1
     elif isinstance(th, list):
         # Lists cannot be batched. We don't allow lists of lists.
         return 1
-- 
2.43.0


From a274d62e6bf8876ff444bf732babedd4e6b335d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:24 +0000
Subject: [PATCH 05/33] fix: quaternion_from_euler no longer halves its
 argument in place

---
 src/pytorch_kinematics/transforms/rotation_conversions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/rotation_conversions.py b/src/pytorch_kinematics/transforms/rotation_conversions.py
index 9d3b613..4dfa392 100644
--- a/src/pytorch_kinematics/transforms/rotation_conversions.py
+++ b/src/pytorch_kinematics/transforms/rotation_conversions.py
@@ -746,9 +746,10 @@ def quaternion_from_euler(rpy, axes='sxyz'):
     if parity:
         aj = -aj
 
-    ai /= 2.0
-    aj /= 2.0
-    ak /= 2.0
+    # out of place: ai, aj, ak are views of the caller's tensor
+    ai = ai / 2.0
+    aj = aj / 2.0
+    ak = ak / 2.0
     ci = torch.cos(ai)
     si = torch.sin(ai)
     cj = torch.cos(aj)
-- 
2.43.0


From d95196943a3e5e3b9a9676f6528db68a763a0d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:24 +0000
Subject: [PATCH 06/33] fix: quaternion_slerp no longer flips its argument in
 place

---
 src/pytorch_kinematics/transforms/math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/math.py b/src/pytorch_kinematics/transforms/math.py
index 9a315b7..c852043 100644
--- a/src/pytorch_kinematics/transforms/math.py
+++ b/src/pytorch_kinematics/transforms/math.py
@@ -60,8 +60,8 @@ def quaternion_slerp(q1: torch.Tensor, q2: torch.Tensor, t: Union[float, torch.t
 
     # reverse the direction of q2 if q1 and q2 are not in the same hemisphere
     to_invert = cos_theta < 0
-    q2[to_invert] = -q2[to_invert]
-    cos_theta[to_invert] = -cos_theta[to_invert]
+    q2 = torch.where(to_invert.unsqueeze(-1), -q2, q2)
+    cos_theta = torch.where(to_invert, -cos_theta, cos_theta)
 
     # If the quaternions are close, perform a linear interpolation
     if torch.all(cos_theta > 1.0 - 1e-6):
-- 
2.43.0


From e00fbf0fe1f974ab7b8a19ce8d1fafe371464227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:42 +0000
Subject: [PATCH 07/33] fix: do not hand out the memoised joint name list and
 frame index tensor

A caller editing the returned list or tensor silently changed every later
answer of the model.
---
 src/pytorch_kinematics/chain.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 7cc9a1f..f943589 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -417,14 +417,18 @@ class Chain:
         joints = self._get_joints(self._root, exclude_fixed=exclude_fixed)
         return joints
 
-    @lru_cache()
     def get_joint_parameter_names(self, exclude_fixed=True):
+        # a new list per call: the caller may edit it, the cached names must not change
+        return list(self._joint_parameter_names(exclude_fixed))
+
+    @lru_cache()
+    def _joint_parameter_names(self, exclude_fixed=True):
         names = []
         for j in self.get_joints(exclude_fixed=exclude_fixed):
             if exclude_fixed and j.joint_type == 'fixed':
                 continue
             names.append(j.name)
-        return names
+        return tuple(names)
 
     @staticmethod
     def _find_joint_recursive(name, frame):
@@ -494,8 +498,12 @@ class Chain:
         names = self._get_link_names(self._root)
         return sorted(set(names), key=names.index)
 
-    @lru_cache
     def get_frame_indices(self, *frame_names):
+        # a copy per call: the caller may edit it, the cached tensor must not change
+        return self._frame_indices(*frame_names).clone()
+
+    @lru_cache
+    def _frame_indices(self, *frame_names):
         return torch.tensor([self.frame_to_idx[n] for n in frame_names], dtype=torch.long, device=self.device)
 
     def print_tree(self, do_print=True):
-- 
2.43.0


From 4681272bd14bd0286ff2841c5db1a6b069a08740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:42 +0000
Subject: [PATCH 08/33] fix: joints without finite limits no longer turn IK
 solutions into NaN

With a mix of limited and unlimited joints the centre of an infinite range is
NaN or infinite, and wrapping around it poisoned the whole configuration.
---
 src/pytorch_kinematics/ik.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 66962cd..fb1aafe 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -601,6 +601,8 @@ class PseudoInverseIK(InverseKinematics):
         center = (low + high) / 2
         # compute the number of 2*pi shifts needed to bring q closest to the center of the limits
         n = torch.round((center - q) / (2 * math.pi))
+        # a joint without finite limits on both sides has no center to wrap around
+        n = torch.where(torch.isfinite(center), n, torch.zeros_like(n))
         # only apply to revolute joints
         q_wrapped = q.clone()
         q_wrapped[..., self._revolute_mask] = q[..., self._revolute_mask] + n[..., self._revolute_mask] * 2 * math.pi
-- 
2.43.0


From fd32a0c3e9210ebd1ca076042c986b08102d31ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:42 +0000
Subject: [PATCH 09/33] fix: IK per-attempt position and rotation flags
 describe the returned configuration

They stayed set once any earlier iterate had met the tolerance, even when the
configuration returned for that attempt does not, and the per-problem flags
were never filled in.
---
 src/pytorch_kinematics/ik.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index fb1aafe..c97045f 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -190,9 +190,11 @@ class IKSolution:
         self.solutions = torch.where(not_converged_dof, qq, self.solutions)
         self.err_pos = torch.where(not_converged, err_pos, self.err_pos)
         self.err_rot = torch.where(not_converged, err_rot, self.err_rot)
-        self.converged_pos = self.converged_pos | converged_pos
-        self.converged_rot = self.converged_rot | converged_rot
+        self.converged_pos = torch.where(not_converged, converged_pos, self.converged_pos)
+        self.converged_rot = torch.where(not_converged, converged_rot, self.converged_rot)
         self.converged = self.converged | converged
+        self.converged_pos_any = self.converged_pos.any(dim=1)
+        self.converged_rot_any = self.converged_rot.any(dim=1)
         self.converged_any = self.converged_any | converged_any
 
         return converged_any
-- 
2.43.0


From 674101a0329587d84976268fbfefd2937f86d131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:10 +0000
Subject: [PATCH 10/33] fix: concurrent IK solves on one solver no longer share
 their early-stopping state

The best error and the no-improvement counters of a solve lived on the solver,
so a second caller solving at the same time reset or mixed them (wrong early
stops, or shape errors when the number of goals differs).
---
 src/pytorch_kinematics/ik.py | 37 +++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index c97045f..5c30e3d 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -489,6 +489,10 @@ class PseudoInverseIK(InverseKinematics):
             pos_errors = []
             rot_errors = []
 
+        # the state of this solve is local, so that concurrent solves cannot disturb each other; the attributes only
+        # report the most recent values
+        err_min = None
+        no_improve_counter = None
         for i in range(self.max_iterations):
             with torch.no_grad():
                 # early termination if we're out of problems to solve
@@ -502,24 +506,24 @@ class PseudoInverseIK(InverseKinematics):
                 dq = dq.squeeze(2)
 
                 # convergence check using error at current q (before stepping)
-                self.err_all = dx.squeeze(2)
-                self.err = self.err_all.reshape(-1, self.num_retries, 6).norm(dim=-1)
-                sol.update(q, self.err_all, use_keep_mask=self.early_stopping_any_converged)
+                err_all = dx.squeeze(2)
+                err = err_all.reshape(-1, self.num_retries, 6).norm(dim=-1)
+                sol.update(q, err_all, use_keep_mask=self.early_stopping_any_converged)
 
                 if self.early_stopping_no_improvement is not None:
-                    if self.no_improve_counter is None:
-                        self.no_improve_counter = torch.zeros_like(self.err)
-                        self.err_min = self.err.clone()
+                    if no_improve_counter is None:
+                        no_improve_counter = torch.zeros_like(err)
+                        err_min = err.clone()
                     else:
-                        improved = self.err < self.err_min
-                        self.err_min = torch.where(improved, self.err, self.err_min)
+                        improved = err < err_min
+                        err_min = torch.where(improved, err, err_min)
 
-                        self.no_improve_counter = torch.where(improved,
-                                                              torch.zeros_like(self.no_improve_counter),
-                                                              self.no_improve_counter + 1)
+                        no_improve_counter = torch.where(improved,
+                                                         torch.zeros_like(no_improve_counter),
+                                                         no_improve_counter + 1)
 
                         # those that haven't improved
-                        could_improve = self.no_improve_counter <= self.early_stopping_no_improvement_patience
+                        could_improve = no_improve_counter <= self.early_stopping_no_improvement_patience
                         # consider problems, and only throw out those whose all retries cannot be improved
                         could_improve = could_improve.reshape(-1, self.num_retries)
                         if self.early_stopping_no_improvement == "all":
@@ -555,9 +559,12 @@ class PseudoInverseIK(InverseKinematics):
             J_final, m_final = self._jacobian_fn(q, True)
             _, dx_final = self._ik_step_fn(m_final, target_pos, target_wxyz, J_final,
                                            self._reg_matrix, self.num_retries, self.lm_damping, self._task_weight)
-            self.err_all = dx_final.squeeze(2)
-            self.err = self.err_all.reshape(-1, self.num_retries, 6).norm(dim=-1)
-            sol.update(q, self.err_all, use_keep_mask=self.early_stopping_any_converged)
+            err_all = dx_final.squeeze(2)
+            err = err_all.reshape(-1, self.num_retries, 6).norm(dim=-1)
+            sol.update(q, err_all, use_keep_mask=self.early_stopping_any_converged)
+
+        self.err, self.err_all = err, err_all
+        self.err_min, self.no_improve_counter = err_min, no_improve_counter
 
         if self.debug:
             # errors
-- 
2.43.0


From ec766eac39761d2b240e952eb85e019cb32a5598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:32 +0000
Subject: [PATCH 11/33] fix: serial chains can be taken from double precision
 chains

SerialChain defaulted to float32 whatever the precision of the chain it was
taken from, and a chain built with another dtype than its frames kept offsets
in the old one; both made every query fail with a dtype error.
---
 src/pytorch_kinematics/chain.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index f943589..6b35944 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -274,12 +274,12 @@ class Chain:
             if root.link.offset is None:
                 self.link_offsets.append(None)
             else:
-                self.link_offsets.append(root.link.offset.get_matrix())
+                self.link_offsets.append(root.link.offset.get_matrix().to(dtype=self.dtype, device=self.device))
 
             if root.joint.offset is None:
                 self.joint_offsets.append(None)
             else:
-                self.joint_offsets.append(root.joint.offset.get_matrix())
+                self.joint_offsets.append(root.joint.offset.get_matrix().to(dtype=self.dtype, device=self.device))
 
             if is_fixed:
                 self.joint_indices.append(-1)
@@ -665,6 +665,9 @@ class SerialChain(Chain):
         root_frame = chain._root if root_frame_name == "" else chain.find_frame(root_frame_name)
         if root_frame is None:
             raise ValueError("Invalid root frame name %s." % root_frame_name)
+        # unless told otherwise the serial chain has the precision and device of the chain it is taken from
+        kwargs.setdefault("dtype", chain.dtype)
+        kwargs.setdefault("device", chain.device)
         chain = Chain(root_frame, **kwargs)
 
         # make a copy of those frames that includes only the chain up to the end effector
-- 
2.43.0


From 1ada0d8e40f8faf1b6184f19dd5cff9a47832131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:32 +0000
Subject: [PATCH 12/33] fix: sample IK starting configurations in the precision
 of the chain

They were always float32, so inverse kinematics on a double precision chain
failed with a dtype error.
---
 src/pytorch_kinematics/ik.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 5c30e3d..149e59e 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -378,10 +378,11 @@ class InverseKinematics:
             # bound by joint_limits
             if self.joint_limits is None:
                 raise ValueError("joint_limits must be specified if config_sampling_method is uniform")
-            return torch.rand(num_configs, self.dof, device=self.device) * (
-                    self.joint_limits[:, 1] - self.joint_limits[:, 0]) + self.joint_limits[:, 0]
+            limits = self.joint_limits.to(dtype=self.dtype, device=self.device)
+            return torch.rand(num_configs, self.dof, dtype=self.dtype, device=self.device) * (
+                    limits[:, 1] - limits[:, 0]) + limits[:, 0]
         elif self.config_sampling_method == "gaussian":
-            return torch.randn(num_configs, self.dof, device=self.device)
+            return torch.randn(num_configs, self.dof, dtype=self.dtype, device=self.device)
         elif callable(self.config_sampling_method):
             return self.config_sampling_method(num_configs)
         else:
-- 
2.43.0


From 5e3948251350e8b7e1e975a334cc91d3c9e9c2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:12 +0000
Subject: [PATCH 13/33] fix: second derivatives through forward kinematics are
 no longer silently wrong

---
 src/pytorch_kinematics/chain.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 6b35944..0899a64 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -121,10 +121,12 @@ class _FKAnalyticalBackward(torch.autograd.Function):
 
     @staticmethod
     def forward(ctx, th, T_world_link, dof_frame_indices, dof_ancestor_mask, dof_is_revolute, axes):
-        # No FK computation — just save what backward needs and pass through.
-        ctx.save_for_backward(T_world_link, dof_frame_indices, dof_ancestor_mask,
+        # No FK computation — just save what backward needs and pass through. The output is saved rather than the
+        # input, because backward depends on th through it: differentiating backward again must see that.
+        out = T_world_link.view_as(T_world_link)
+        ctx.save_for_backward(out, dof_frame_indices, dof_ancestor_mask,
                               dof_is_revolute, axes)
-        return T_world_link
+        return out
 
     @staticmethod
     def backward(ctx, grad_output):
-- 
2.43.0


From 57755bedbc2ebcd287e1f24985e73bac4f02bdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:21 +0000
Subject: [PATCH 14/33] fix: translations, scalings and rotations keep the
 requested precision

---
 .../transforms/transform3d.py                 | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 51f381e..cd54060 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -409,16 +409,16 @@ class Transform3d:
         return shape_operators_out
 
     def translate(self, *args, **kwargs):
-        return self.compose(Translate(device=self.device, *args, **kwargs))
+        return self.compose(Translate(device=self.device, *args, **{"dtype": self.dtype, **kwargs}))
 
     def scale(self, *args, **kwargs):
-        return self.compose(Scale(device=self.device, *args, **kwargs))
+        return self.compose(Scale(device=self.device, *args, **{"dtype": self.dtype, **kwargs}))
 
     def rotate(self, *args, **kwargs):
-        return self.compose(Rotate(device=self.device, *args, **kwargs))
+        return self.compose(Rotate(device=self.device, *args, **{"dtype": self.dtype, **kwargs}))
 
     def rotate_axis_angle(self, *args, **kwargs):
-        return self.compose(RotateAxisAngle(device=self.device, *args, **kwargs))
+        return self.compose(RotateAxisAngle(device=self.device, *args, **{"dtype": self.dtype, **kwargs}))
 
     def sample_perturbations(self, num_perturbations, radian_sigma, translation_sigma):
         mat = self.get_matrix()
@@ -489,7 +489,7 @@ class Translate(Transform3d):
                 - A torch scalar
                 - A 1D torch tensor
         """
-        super().__init__(device=device)
+        super().__init__(device=device, dtype=dtype)
         xyz = _handle_input(x, y, z, dtype, device, "Translate")
         N = xyz.shape[0]
 
@@ -526,7 +526,7 @@ class Scale(Transform3d):
                 - torch scalar
                 - 1D torch tensor
         """
-        super().__init__(device=device)
+        super().__init__(device=device, dtype=dtype)
         xyz = _handle_input(x, y, z, dtype, device, "scale", allow_singleton=True)
         N = xyz.shape[0]
 
@@ -561,7 +561,7 @@ class Rotate(Transform3d):
             orthogonal_tol: tolerance for the test of the orthogonality of R
 
         """
-        super().__init__(device=device)
+        super().__init__(device=device, dtype=dtype)
         if not torch.is_tensor(R):
             R = torch.tensor(R, dtype=dtype, device=device)
         R = R.to(dtype=dtype).to(device=device)
@@ -596,7 +596,7 @@ class RotateAxisAngle(Rotate):
             angle,
             axis: str = "X",
             degrees: bool = True,
-            dtype=torch.float64,
+            dtype=torch.float32,
             device: str = "cpu",
     ):
         """
@@ -620,14 +620,14 @@ class RotateAxisAngle(Rotate):
         if axis not in ["X", "Y", "Z"]:
             msg = "Expected axis to be one of ['X', 'Y', 'Z']; got %s"
             raise ValueError(msg % axis)
-        angle = _handle_angle_input(angle, dtype, device, "RotateAxisAngle")
+        angle = _handle_angle_input(angle, torch.float64, device, "RotateAxisAngle")
         angle = (angle / 180.0 * math.pi) if degrees else angle
         # We assume the points on which this transformation will be applied
         # are row vectors. The rotation matrix returned from _axis_angle_rotation
         # is for transforming column vectors. Therefore we transpose this matrix.
         # R will always be of shape (N, 3, 3)
         R = _axis_angle_rotation(axis, angle)
-        super().__init__(device=device, R=R)
+        super().__init__(device=device, dtype=dtype, R=R)
 
 
 def _handle_coord(c, dtype, device):
-- 
2.43.0


From 61eaac25c7cd58bf66858a4efe235c2d1d5da799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:45 +0000
Subject: [PATCH 15/33] fix: Jacobians accept a mapping of joint values as
 documented

---
 src/pytorch_kinematics/chain.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 0899a64..7fb1395 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -782,7 +782,9 @@ class SerialChain(Chain):
 
         Returns: (B, 6, ndof) Jacobian, and optionally (B, 4, 4) EEF pose
         """
-        if not torch.is_tensor(th):
+        if isinstance(th, dict):
+            th = self.ensure_tensor(th)
+        elif not torch.is_tensor(th):
             th = torch.tensor(th, dtype=self.dtype, device=self.device)
         if len(th.shape) <= 1:
             th = th.reshape(1, -1)
-- 
2.43.0


From f2d134d8f4c55859dc9b9f4005f51042494165dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:03 +0000
Subject: [PATCH 16/33] fix: applying a batch of transforms to the
 corresponding points and normals

---
 src/pytorch_kinematics/transforms/transform3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index cd54060..89492f9 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -332,7 +332,7 @@ class Transform3d:
 
         composed_matrix = self.get_matrix().transpose(-1, -2)
         if batch_to_batch:
-            points_out = linalg.batch_batch_product(points_batch, composed_matrix)
+            points_out = linalg.batch_batch_product(points_batch.reshape(-1, 4), self.get_matrix()).reshape(N, P, 4)
         else:
             points_out = _broadcast_bmm(points_batch, composed_matrix)
         denom = points_out[..., 3:]  # denominator
@@ -367,7 +367,7 @@ class Transform3d:
         mat = self.inverse().get_matrix()[:, :3, :3]
 
         if batch_to_batch:
-            normals_out = linalg.batch_batch_product(normals, mat)
+            normals_out = linalg.batch_batch_product(normals, mat.transpose(-1, -2))
         else:
             normals_out = _broadcast_bmm(normals, mat)
 
-- 
2.43.0


From b8b2c286ba288f12aac44ec40c8d63f952ff2dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:05 +0000
Subject: [PATCH 17/33] fix: matrix_to_pos_rot no longer returns a view into
 its argument

---
 src/pytorch_kinematics/transforms/rotation_conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/transforms/rotation_conversions.py b/src/pytorch_kinematics/transforms/rotation_conversions.py
index 4dfa392..ed72e4b 100644
--- a/src/pytorch_kinematics/transforms/rotation_conversions.py
+++ b/src/pytorch_kinematics/transforms/rotation_conversions.py
@@ -672,7 +672,7 @@ def se3_9d_to_matrix44(se3: torch.Tensor) -> torch.Tensor:
 
 def matrix_to_pos_rot(m):
     """Convert 4x4 transformation matrix to (position, xyzw quatnerion) used by pybullet and RViz"""
-    pos = m[..., :3, 3]
+    pos = m[..., :3, 3].clone()
     rot = matrix_to_quaternion(m[..., :3, :3])
     rot = wxyz_to_xyzw(rot)
     return pos, rot
-- 
2.43.0


From 53872769d82dac6b9c163e91ad81146f363f6906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 18/33] fix: IK solvers keep their own copy of the given
 starting configurations and limits

---
 src/pytorch_kinematics/ik.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 149e59e..7d14b64 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -352,13 +352,14 @@ class InverseKinematics:
 
         self.pos_tolerance = pos_tolerance
         self.rot_tolerance = rot_tolerance
-        self.initial_config = retry_configs
+        # copies, so that the caller stays free to reuse its tensors
+        self.initial_config = None if retry_configs is None else retry_configs.clone()
         if retry_configs is None and num_retries is None:
             raise ValueError("either initial_configs or num_retries must be specified")
 
         # sample initial configs instead
         self.config_sampling_method = config_sampling_method
-        self.joint_limits = joint_limits
+        self.joint_limits = None if joint_limits is None else joint_limits.clone()
         if retry_configs is None:
             self.initial_config = self.sample_configs(num_retries)
         else:
-- 
2.43.0


From a80f1ec5bf274041fee4db0cc58918f977e71279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:22 +0000
Subject: [PATCH 19/33] fix: SVD based IK works for chains with fewer than six
 joints

---
 src/pytorch_kinematics/ik.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 7d14b64..4c7b403 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -123,6 +123,7 @@ def _ik_step_kernel_svd(m_flat: torch.Tensor, target_pos: torch.Tensor, target_w
     denom = D ** 2 + regularization
     prod = D / denom
     inverted = torch.diag_embed(prod)
+    U = U[:, :, :m_sv]
     Vh = Vh[:, :m_sv, :]
     total = Vh.transpose(1, 2) @ inverted @ U.transpose(1, 2)
     dq = total @ dx_w
-- 
2.43.0


From 6b5e05e16903e87529c5a2d3dbfad9c2b62a4739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:22 +0000
Subject: [PATCH 20/33] fix: a goal that cannot be followed no longer fails the
 whole SVD based IK batch

---
 src/pytorch_kinematics/ik.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 4c7b403..927434e 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -118,6 +118,9 @@ def _ik_step_kernel_svd(m_flat: torch.Tensor, target_pos: torch.Tensor, target_w
     if lm_damping > 0.0:
         mu = lm_damping * (dx_w * dx_w).sum(dim=1, keepdim=True).squeeze(2)  # (NM, 1)
         regularization = regularization + mu
+    # non-finite Jacobians are rejected for the whole batch; those attempts keep a non-finite dx, so leave out theirs
+    J_w = torch.where(torch.isfinite(J_w).all(dim=2, keepdim=True).all(dim=1, keepdim=True),
+                      J_w, torch.zeros_like(J_w))
     U, D, Vh = torch.linalg.svd(J_w)
     m_sv = D.shape[1]
     denom = D ** 2 + regularization
-- 
2.43.0


From 5e3d16511515c258c0399f13be52975188791502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:22 +0000
Subject: [PATCH 21/33] fix: one singular system no longer fails the whole IK
 batch

---
 src/pytorch_kinematics/ik.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 927434e..f64e418 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -62,7 +62,9 @@ def _ik_step_kernel(m_flat: torch.Tensor, target_pos: torch.Tensor, target_wxyz:
         tmpA = J_w @ J_w.transpose(1, 2) + reg_matrix + mu * torch.eye(6, device=J.device, dtype=J.dtype)
     else:
         tmpA = J_w @ J_w.transpose(1, 2) + reg_matrix
-    A = torch.linalg.solve(tmpA, dx_w)
+    # linalg.solve would fail the whole batch for one singular system; only that attempt makes no step instead
+    A, info = torch.linalg.solve_ex(tmpA, dx_w)
+    A = torch.where((info == 0).view(-1, 1, 1), A, torch.zeros_like(A))
     dq = J_w.transpose(1, 2) @ A
     return dq, dx
 
-- 
2.43.0


From 41533a24944f622b19ebb9eca99926f8eb586c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:23 +0000
Subject: [PATCH 22/33] fix: gaussian_around_config samples around the
 configuration it was given

---
 src/pytorch_kinematics/ik.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index f64e418..52e8b73 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -208,6 +208,9 @@ class IKSolution:
 
 # helper config sampling method
 def gaussian_around_config(config: torch.Tensor, std: float) -> Callable[[int], torch.Tensor]:
+    # the caller may edit config before the samples are drawn
+    config = config.clone()
+
     def config_sampling_method(num_configs):
         return torch.randn(num_configs, config.shape[0], dtype=config.dtype, device=config.device) * std + config
 
-- 
2.43.0


From 5a29cd4219eec85dfb296eb4b625796eaf80187d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:58 +0000
Subject: [PATCH 23/33] fix: the frames of an extracted serial chain have the
 chain's precision

---
 src/pytorch_kinematics/chain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 7fb1395..62b5dae 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -693,6 +693,8 @@ class SerialChain(Chain):
         # the origin of the new coordinate system.
         frames[0].joint = Joint()
         frames[0].link.offset = None
+        # the copies have the precision and device of the original frames
+        frames[0].to(dtype=chain.dtype, device=chain.device)
 
         self._serial_frames = frames
         super().__init__(frames[0], **kwargs)
-- 
2.43.0


From f0b8de40134d5e52b4fb2c12f1f1b1f724ec06de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:26 +0000
Subject: [PATCH 24/33] fix: Transform3d.to(copy=True) really copies

---
 src/pytorch_kinematics/transforms/transform3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 89492f9..2998eaf 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -464,7 +464,7 @@ class Transform3d:
         other = self.clone()
         other.device = device
         other.dtype = dtype if dtype is not None else other.dtype
-        other._matrix = self._matrix.to(device=device, dtype=dtype)
+        other._matrix = other._matrix.to(device=device, dtype=dtype)
         return other
 
     def cpu(self):
-- 
2.43.0


From 8f152b338a931760fbec9c8d9082b101aaad39b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:32 +0000
Subject: [PATCH 25/33] fix: several callers may read their first description
 at the same time

---
 src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
index 8659bde..e3b187a 100644
--- a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
+++ b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
@@ -73,8 +73,9 @@ def get_type(cur_type):
         # Try again, in 'global' scope
         value_type = value_types.get(cur_type)
     if value_type is None:
-        value_type = make_type(cur_type)
-        add_type(cur_type, value_type)
+        # several documents may be read at the same time: whoever comes second uses what the first one registered
+        key = value_type_prefix + cur_type if isinstance(cur_type, str) else cur_type
+        value_type = value_types.setdefault(key, make_type(cur_type))
     return value_type
 
 
-- 
2.43.0


From 82f6a4277e10b4cddc60e9f8cd1dbe32f3d5c73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:32 +0000
Subject: [PATCH 26/33] fix: load URDF and SDF robots that are a single link

---
 src/pytorch_kinematics/sdf.py  | 2 ++
 src/pytorch_kinematics/urdf.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index 2a2a960..d818b5c 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -91,6 +91,8 @@ def build_chain_from_sdf(data):
                 has_root[i] = False
             elif joints[j].parent == joints[i].child:
                 has_root[j] = False
+    if n_joints == 0 and len(robot.links) == 1:
+        root_link = robot.links[0]
     for i in range(n_joints):
         if has_root[i]:
             root_link = lmap[joints[i].parent]
diff --git a/src/pytorch_kinematics/urdf.py b/src/pytorch_kinematics/urdf.py
index 625ffeb..50250a0 100644
--- a/src/pytorch_kinematics/urdf.py
+++ b/src/pytorch_kinematics/urdf.py
@@ -113,6 +113,8 @@ def build_chain_from_urdf(data):
                 has_root[i] = False
             elif joints[j].parent == joints[i].child:
                 has_root[j] = False
+    if n_joints == 0 and len(robot.links) == 1:
+        root_link = robot.links[0]
     for i in range(n_joints):
         if has_root[i]:
             root_link = lmap[joints[i].parent]
-- 
2.43.0


From 8c83d75b2b753b49f178a0525aa4e6d6f174ff3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:32 +0000
Subject: [PATCH 27/33] fix: SDF joints without an axis and links without
 inertial are optional in the format

---
 src/pytorch_kinematics/sdf.py                | 2 +-
 src/pytorch_kinematics/urdf_parser_py/sdf.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index d818b5c..bcf9454 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -57,7 +57,7 @@ def _build_chain_recurse(root_frame, lmap, joints):
             except AttributeError:
                 limits = None
             child_frame.joint = frame.Joint(j.name, offset=t_p.inverse().compose(t_c),
-                                            joint_type=JOINT_TYPE_MAP[j.type], axis=j.axis.xyz, limits=limits)
+                                            joint_type=JOINT_TYPE_MAP[j.type], axis=None if j.axis is None else j.axis.xyz, limits=limits)
             child_frame.link = frame.Link(link_c.name, offset=tf.Transform3d(),
                                           visuals=_convert_visuals(link_c.visuals))
             child_frame.children = _build_chain_recurse(child_frame, lmap, joints)
diff --git a/src/pytorch_kinematics/urdf_parser_py/sdf.py b/src/pytorch_kinematics/urdf_parser_py/sdf.py
index 74d8fc7..a80ab34 100644
--- a/src/pytorch_kinematics/urdf_parser_py/sdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/sdf.py
@@ -235,7 +235,7 @@ class Joint(xmlr.Object):
 xmlr.reflect(Joint, tag='joint', params=[
     name_attribute,
     xmlr.Attribute('type', str, False),
-    xmlr.Element('axis', Axis),
+    xmlr.Element('axis', Axis, False),
     xmlr.Element('parent', str),
     xmlr.Element('child', str),
     pose_element
@@ -255,7 +255,7 @@ class Link(xmlr.Object):
 
 xmlr.reflect(Link, tag='link', params=[
     name_attribute,
-    xmlr.Element('inertial', Inertial),
+    xmlr.Element('inertial', Inertial, False),
     xmlr.Attribute('kinematic', bool, False),
     xmlr.AggregateElement('visual', Visual, var='visuals'),
     xmlr.AggregateElement('collision', Collision, var='collisions'),
-- 
2.43.0


From 8565b7dae651cc9ef47537d88978047488151040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:16 +0000
Subject: [PATCH 28/33] fix: accept a mapping of arrays of joint values

The docstring and get_dict_elem_shape allow arrays, assigning one to a tensor
raised TypeError.
---
 src/pytorch_kinematics/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 62b5dae..8fd54a7 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -590,7 +590,7 @@ class Chain:
             joint_names = self.get_joint_parameter_names()
             for joint_name, joint_position in th_dict.items():
                 jnt_idx = joint_names.index(joint_name)
-                th[..., jnt_idx] = joint_position
+                th[..., jnt_idx] = torch.as_tensor(joint_position, dtype=self.dtype, device=self.device)
             if torch.any(torch.isnan(th)):
                 msg = "Missing values for the following joints:\n"
                 for joint_name, th_i in zip(self.get_joint_parameter_names(), th):
-- 
2.43.0


From b23e1e93a9646b2d40e8137ed4dc1e7d9af60e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:45 +0000
Subject: [PATCH 29/33] fix: composing a transform with nothing gives a
 transform of its own

It shared its matrix with the original, so writing to one changed the other.
---
 src/pytorch_kinematics/transforms/transform3d.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 2998eaf..4f5b3d9 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -244,6 +244,9 @@ class Transform3d:
         mat = self._matrix
         for other in others:
             mat = _broadcast_bmm(mat, other.get_matrix())
+        if len(others) == 0:
+            # the result must not share its matrix with this transform
+            mat = mat.clone()
 
         out = Transform3d(device=self.device, dtype=self.dtype, matrix=mat)
         return out
-- 
2.43.0


From aae3709ab5a17fc5779b26b930a56136dc5bae92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:47 +0000
Subject: [PATCH 30/33] fix: joint queries with exclude_fixed=False include the
 fixed joints

The recursion dropped the flag and the root's test was inverted, so exactly the
fixed joints were left out.
---
 src/pytorch_kinematics/chain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 8fd54a7..f8a01de 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -409,10 +409,10 @@ class Chain:
     @staticmethod
     def _get_joints(frame, exclude_fixed=True):
         joints = []
-        if exclude_fixed and frame.joint.joint_type != "fixed":
+        if not (exclude_fixed and frame.joint.joint_type == "fixed"):
             joints.append(frame.joint)
         for child in frame.children:
-            joints.extend(Chain._get_joints(child))
+            joints.extend(Chain._get_joints(child, exclude_fixed))
         return joints
 
     def get_joints(self, exclude_fixed=True):
-- 
2.43.0


From fd72a74e357e6754a840a61a9eb53050e63d713f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:19 +0000
Subject: [PATCH 31/33] fix: honour the reference position of MJCF joints

---
 src/pytorch_kinematics/mjcf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pytorch_kinematics/mjcf.py b/src/pytorch_kinematics/mjcf.py
index e83109c..8c7cf0b 100644
--- a/src/pytorch_kinematics/mjcf.py
+++ b/src/pytorch_kinematics/mjcf.py
@@ -1,6 +1,7 @@
 from typing import Union, Optional, Dict
 
 import mujoco
+import torch
 from mujoco._structs import _MjModelBodyViews as MjModelBodyViews
 
 import pytorch_kinematics.transforms as tf
@@ -46,6 +47,10 @@ def _build_chain_recurse(m, parent_frame, parent_body):
                 child_joint = frame.Joint(body.name + "_fixed_joint")
             child_link = frame.Link(body.name, offset=tf.Transform3d(rot=body.quat, pos=body.pos))
             child_frame = frame.Frame(name=body.name, link=child_link, joint=child_joint)
+            if n_joints == 1 and m.qpos0[joint.qposadr[0]] != 0:
+                # the body is at its described pose when the joint is at its reference position, not at zero
+                child_joint.offset = child_frame.get_transform(torch.tensor([-m.qpos0[joint.qposadr[0]]],
+                                                                            dtype=torch.float32))
             parent_frame.children = parent_frame.children + [child_frame, ]
             _build_chain_recurse(m, child_frame, body)
 
-- 
2.43.0


From 5e99700295af94f8d683c32ede409b3e8b170376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:19 +0000
Subject: [PATCH 32/33] fix: debug plots no longer fail a solve whose errors
 are all not-a-number

---
 src/pytorch_kinematics/ik.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 52e8b73..28563c8 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -577,16 +577,17 @@ class PseudoInverseIK(InverseKinematics):
         self.err, self.err_all = err, err_all
         self.err_min, self.no_improve_counter = err_min, no_improve_counter
 
-        if self.debug:
+        if self.debug and len(pos_errors) > 0:
             # errors
             fig, ax = plt.subplots(ncols=2, figsize=(10, 5))
             pos_e = torch.stack(pos_errors, dim=0).cpu()
             rot_e = torch.stack(rot_errors, dim=0).cpu()
             ax[0].set_ylim(0, 1.)
             # ignore nan
-            ignore = torch.isnan(rot_e)
-            axis_max = rot_e[~ignore].max().item()
-            ax[1].set_ylim(0, axis_max * 1.1)
+            ignore = ~torch.isfinite(rot_e)
+            if not ignore.all():
+                axis_max = rot_e[~ignore].max().item()
+                ax[1].set_ylim(0, axis_max * 1.1)
             ax[0].set_xlim(0, self.max_iterations - 1)
             ax[1].set_xlim(0, self.max_iterations - 1)
             # draw at most 50 lines
-- 
2.43.0


From 385427cd44095064955e3ab1b1b04015bd63147e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:19 +0000
Subject: [PATCH 33/33] fix: keep the children a Frame is constructed with

---
 src/pytorch_kinematics/frame.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/frame.py b/src/pytorch_kinematics/frame.py
index 0c35d84..35af508 100644
--- a/src/pytorch_kinematics/frame.py
+++ b/src/pytorch_kinematics/frame.py
@@ -100,8 +100,7 @@ class Frame(object):
         self.name = 'None' if name is None else name
         self.link = link if link is not None else Link()
         self.joint = joint if joint is not None else Joint()
-        if children is None:
-            self.children = []
+        self.children = [] if children is None else list(children)
 
     def __str__(self, prefix='', root=True):
         pointers = [tee] * (len(self.children) - 1) + [last]
-- 
2.43.0

