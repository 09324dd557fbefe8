From f85bbaae6ce9722e378643a7e0782a2dfd7e2590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:05 +0000
Subject: [PATCH 01/16] fix: make set_enabled a no-op when the state does not
 change

Enabling a body that is already enabled tried to create broad-phase
proxies a second time and hit an assertion. Return early instead.
---
 src/private/dynamics/b2_body.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/private/dynamics/b2_body.rs b/src/private/dynamics/b2_body.rs
index 27ea53b..3bbf151 100644
--- a/src/private/dynamics/b2_body.rs
+++ b/src/private/dynamics/b2_body.rs
@@ -493,6 +493,10 @@ pub fn set_enabled<D: UserDataType>(self_: BodyPtr<D>, flag: bool) {
 			return;
 		}
 
+		if flag == self_.is_enabled() {
+			return;
+		}
+
 		self_.m_flags.set(BodyFlags::E_ENABLED_FLAG, flag);
 		m_fixture_list = self_.m_fixture_list.clone();
 		m_xf = self_.m_xf;
-- 
2.43.0


From f2cc9c537011ddb5e6a54572d40396ca135cac77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:05 +0000
Subject: [PATCH 02/16] fix: allow refiltering a fixture that has contacts

refilter holds the fixture mutably while it compares it with the
fixtures of each contact. Borrowing those fixtures again panicked.
Compare the addresses without borrowing.
---
 src/private/dynamics/b2_fixture.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/dynamics/b2_fixture.rs b/src/private/dynamics/b2_fixture.rs
index 6c118cf..60778d4 100644
--- a/src/private/dynamics/b2_fixture.rs
+++ b/src/private/dynamics/b2_fixture.rs
@@ -193,7 +193,7 @@ pub fn b2_fixture_refilter<T:UserDataType>(self_: &mut B2fixture<T>) {
 		let mut contact = contact.borrow_mut();
 		let fixture_a = contact.get_base().get_fixture_a();
 		let fixture_b = contact.get_base().get_fixture_b();
-		if ptr::eq(&*fixture_a.borrow(),self_) || ptr::eq(&*fixture_b.borrow(),self_)
+		if ptr::eq(fixture_a.as_ptr(),self_) || ptr::eq(fixture_b.as_ptr(),self_)
 		{
 			contact.get_base_mut().flag_for_filtering();
 		}
-- 
2.43.0


From 5bacb7cd41ebff2a29bc39b89c60180217000966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:24 +0000
Subject: [PATCH 03/16] fix: bound the number of bodies and contacts in a TOI
 island

The capacity checks had been left out, so a fast body touching more
than 64 others in one sub-step indexed past the island arrays. Stop
collecting contacts once the island is full.
---
 src/private/dynamics/b2_world.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/private/dynamics/b2_world.rs b/src/private/dynamics/b2_world.rs
index 87add4b..e2c6e3c 100644
--- a/src/private/dynamics/b2_world.rs
+++ b/src/private/dynamics/b2_world.rs
@@ -745,15 +745,15 @@ pub(crate) fn solve_toi<D: UserDataType>(self_: &mut B2world<D>, step: B2timeSte
 			if body.borrow().m_type == B2bodyType::B2DynamicBody {
 				let contact_list = body.borrow().m_contact_list.clone();
 				for ce in contact_list.iter() {
-					// if island.m_body_count == island.m_body_capacity
-					// {
-					// 	break;
-					// }
-
-					// if island.m_contact_count == island.m_contact_capacity
-					// {
-					// 	break;
-					// }
+					if island.m_bodies.len() == 2 * B2_MAX_TOICONTACTS
+					{
+						break;
+					}
+
+					if island.m_contacts.len() == B2_MAX_TOICONTACTS
+					{
+						break;
+					}
 
 					let contact_ptr = ce.borrow().contact.upgrade().unwrap();
 					let mut contact = contact_ptr.borrow_mut();
-- 
2.43.0


From fd0e14f7a2b6a782fd4dbda6386af63266a3c1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:24 +0000
Subject: [PATCH 04/16] fix: ignore overlapping shapes that have no collision
 routine

There is no routine for two edges, two chains or an edge and a chain.
Such a pair with a dynamic body panicked when the shapes came close.
Skip the pair, as no contact can be created for it.
---
 src/b2_contact.rs                          | 2 +-
 src/private/dynamics/b2_contact.rs         | 9 +++++----
 src/private/dynamics/b2_contact_manager.rs | 5 ++++-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/b2_contact.rs b/src/b2_contact.rs
index bbca868..1d4f7f2 100644
--- a/src/b2_contact.rs
+++ b/src/b2_contact.rs
@@ -259,7 +259,7 @@ impl<D: UserDataType> B2contact<D> {
 		index_a: i32,
 		fixture_b: FixturePtr<D>,
 		index_b: i32,
-	) -> ContactPtr<D> {
+	) -> Option<ContactPtr<D>> {
 		return private::b2_contact_create(contact_manager, fixture_a, index_a, fixture_b, index_b);
 	}
 	pub(crate) fn destroy(self_: &dyn B2contactDynTrait<D>) {
diff --git a/src/private/dynamics/b2_contact.rs b/src/private/dynamics/b2_contact.rs
index 2a52dc7..d1ce8d3 100644
--- a/src/private/dynamics/b2_contact.rs
+++ b/src/private/dynamics/b2_contact.rs
@@ -14,19 +14,20 @@ pub fn b2_contact_create<D: UserDataType>(
 	index_a: i32,
 	fixture_b: FixturePtr<D>,
 	index_b: i32,
-) -> ContactPtr<D> {
+) -> Option<ContactPtr<D>> {
 
 	let type1: B2ShapeType = fixture_a.borrow().get_type();
 	let type2: B2ShapeType = fixture_b.borrow().get_type();
 
 	let s_register = &contact_manager.m_registers.s_registers[type1 as usize][type2 as usize];
 
-	let create_fcn = s_register.create_fcn.unwrap();
+	// Not every pair of shape types can collide (for example edge and chain).
+	let create_fcn = s_register.create_fcn?;
 
 	if s_register.primary {
-		return create_fcn(fixture_a, index_a, fixture_b, index_b);
+		return Some(create_fcn(fixture_a, index_a, fixture_b, index_b));
 	} else {
-		return create_fcn(fixture_b, index_b, fixture_a, index_a);
+		return Some(create_fcn(fixture_b, index_b, fixture_a, index_a));
 	}
 }
 
diff --git a/src/private/dynamics/b2_contact_manager.rs b/src/private/dynamics/b2_contact_manager.rs
index d9485ef..0b9e941 100644
--- a/src/private/dynamics/b2_contact_manager.rs
+++ b/src/private/dynamics/b2_contact_manager.rs
@@ -253,7 +253,10 @@ pub fn b2_contact_manager_add_pair<D: UserDataType>(
 	}
 
 	// Call the factory.
-	let c = B2contact::create(&*self_, fixture_a, index_a, fixture_b, index_b);
+	let c = match B2contact::create(&*self_, fixture_a, index_a, fixture_b, index_b) {
+		Some(c) => c,
+		None => return,
+	};
 
 	// Contact creation may swap fixtures.
 	let fixture_a = c.borrow().get_base().get_fixture_a();
-- 
2.43.0


From 4504785bb66496acaa93a053e9dea5507f1dd384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:24 +0000
Subject: [PATCH 05/16] fix: reconnect loaded joints to the right bodies

Bodies and joints are stored in list order and referred to by index.
Loading pushes each one to the front of its list, so the indices were
resolved against the reversed order. Resolve them in stored order.
---
 src/serialize/serialize_b2_world.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/serialize/serialize_b2_world.rs b/src/serialize/serialize_b2_world.rs
index 827e142..1ab6973 100644
--- a/src/serialize/serialize_b2_world.rs
+++ b/src/serialize/serialize_b2_world.rs
@@ -224,7 +224,7 @@ impl<'de, U: UserDataType> Deserialize<'de> for B2worldDeserializeResult<U> {
 
                 let m_body_array;
                 {
-                    m_body_array = Rc::new(RefCell::new(world.borrow().m_body_list.iter().collect::<Vec<_>>()));
+                    m_body_array = Rc::new(RefCell::new(world.borrow().m_body_list.iter().collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>()));
                 }  
 
                 seq.next_element_seed(B2jointListContext {
@@ -236,7 +236,7 @@ impl<'de, U: UserDataType> Deserialize<'de> for B2worldDeserializeResult<U> {
 
                 let m_all_joints;
                 {
-                    m_all_joints = Rc::new(RefCell::new(world.borrow().m_joint_list.iter().collect::<Vec<_>>()));
+                    m_all_joints = Rc::new(RefCell::new(world.borrow().m_joint_list.iter().collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>()));
                 }  
 
                 seq.next_element_seed(B2jointListContext {
@@ -268,7 +268,7 @@ impl<'de, U: UserDataType> Deserialize<'de> for B2worldDeserializeResult<U> {
                                 m_world: world.clone().unwrap(),
                             })?;
 
-                            m_body_array = Some(Rc::new(RefCell::new(world.as_ref().unwrap().borrow().m_body_list.iter().collect::<Vec<_>>())));
+                            m_body_array = Some(Rc::new(RefCell::new(world.as_ref().unwrap().borrow().m_body_list.iter().collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>())));
                         }
                         Field::m_joints_list => {                          
  
@@ -278,7 +278,7 @@ impl<'de, U: UserDataType> Deserialize<'de> for B2worldDeserializeResult<U> {
                                 m_all_joints: Rc::default()
                             })?;
 
-                            m_all_joints = Some(Rc::new(RefCell::new(world.as_ref().unwrap().borrow().m_joint_list.iter().collect::<Vec<_>>())));
+                            m_all_joints = Some(Rc::new(RefCell::new(world.as_ref().unwrap().borrow().m_joint_list.iter().collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>())));
                         }
                         Field::m_gear_joints_list => {                          
 
-- 
2.43.0


From eac07013ba2649e7e9faf201b2285a65b69ec7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:24 +0000
Subject: [PATCH 06/16] fix: leave mouse joints out of the stored joint count

A mouse joint was skipped when joints were written, but it was still
counted. That broke length-prefixed formats and shifted the indices of
the joints after it.
---
 src/serialize/serialize_b2_world.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/serialize/serialize_b2_world.rs b/src/serialize/serialize_b2_world.rs
index 1ab6973..a5607e0 100644
--- a/src/serialize/serialize_b2_world.rs
+++ b/src/serialize/serialize_b2_world.rs
@@ -149,13 +149,12 @@ impl<D: UserDataType> Serialize for B2world<D> {
         for ref b in self.m_joint_list.iter(){
             let mut j = b.borrow_mut();
             j.get_base_mut().m_index = -1;
-            if j.get_base().m_type!=B2jointType::EGearJoint
+            match j.get_base().m_type
             {
-                not_gear_joint.push(b.clone());
-            }
-            else
-            {
-                gear_joint.push(b.clone());
+                // Mouse joints are not stored.
+                B2jointType::EMouseJoint => {}
+                B2jointType::EGearJoint => gear_joint.push(b.clone()),
+                _ => not_gear_joint.push(b.clone()),
             }
         }
 
-- 
2.43.0


From efc6ecc507189716f10d9a1323fb3f5cdadaceb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:34:37 +0000
Subject: [PATCH 07/16] fix: ignore the definition's velocity for a static body

A static body created with a non-zero velocity was moved by the solver as
soon as it became part of an island.
---
 src/private/dynamics/b2_body.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/private/dynamics/b2_body.rs b/src/private/dynamics/b2_body.rs
index 3bbf151..e07202d 100644
--- a/src/private/dynamics/b2_body.rs
+++ b/src/private/dynamics/b2_body.rs
@@ -40,6 +40,13 @@ pub fn b2_body<D: UserDataType>(bd: &B2bodyDef<D>, world: B2worldPtr<D>) -> B2bo
 
 	let m_xf = B2Transform::new(bd.position, B2Rot::new(bd.angle));
 
+	// A static body has zero velocity, the solver would move it otherwise.
+	let (m_linear_velocity, m_angular_velocity) = if bd.body_type == B2bodyType::B2StaticBody {
+		(B2vec2::zero(), 0.0)
+	} else {
+		(bd.linear_velocity, bd.angular_velocity)
+	};
+
 	return B2body::<D> {
 		m_world: Rc::downgrade(&world),
 
@@ -59,8 +66,8 @@ pub fn b2_body<D: UserDataType>(bd: &B2bodyDef<D>, world: B2worldPtr<D>) -> B2bo
 		m_prev: None,
 		m_next: None,
 
-		m_linear_velocity: bd.linear_velocity,
-		m_angular_velocity: bd.angular_velocity,
+		m_linear_velocity: m_linear_velocity,
+		m_angular_velocity: m_angular_velocity,
 
 		m_linear_damping: bd.linear_damping,
 		m_angular_damping: bd.angular_damping,
-- 
2.43.0


From e8411cc0735a9c298a2c2986ad06428f09c7949b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:29:20 +0000
Subject: [PATCH 08/16] fix: let polygon ray casts report hits at the very
 start of the ray

The lower bound of the clipped fraction started at 0.032 instead of 0, so
hits within the first 3.2% of the ray were missed.
---
 src/private/collision/b2_polygon_shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/collision/b2_polygon_shape.rs b/src/private/collision/b2_polygon_shape.rs
index 5b28678..979ca69 100644
--- a/src/private/collision/b2_polygon_shape.rs
+++ b/src/private/collision/b2_polygon_shape.rs
@@ -237,7 +237,7 @@ pub fn b2_shape_dyn_trait_ray_cast(
 	let p2: B2vec2 = b2_mul_t_rot_by_vec2(xf.q, input.p2 - xf.p);
 	let d: B2vec2 = p2 - p1;
 
-	let (mut lower, mut upper) = (0.032, input.max_fraction);
+	let (mut lower, mut upper) = (0.0, input.max_fraction);
 
 	let mut index: i32 = -1;
 
-- 
2.43.0


From 5c4044493c24382d2e18abcc2b96b8d177a770dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:29:38 +0000
Subject: [PATCH 09/16] fix: keep the saved linear velocity when loading a body

Recreating the fixtures of a loaded body moves its center of mass, which
changed the velocity of rotating bodies.
---
 src/serialize/serialize_b2_body.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/serialize/serialize_b2_body.rs b/src/serialize/serialize_b2_body.rs
index a80c628..91e3861 100644
--- a/src/serialize/serialize_b2_body.rs
+++ b/src/serialize/serialize_b2_body.rs
@@ -13,6 +13,7 @@ use std::cell::RefCell;
 use crate::b2_body::*;
 use crate::b2rs_common::UserDataType;
 use crate::b2_joint::*;
+use crate::b2_math::*;
 use crate::b2_world::*;
 
 use crate::joints::serialize::serialize_b2_distance_joint::*;
@@ -115,6 +116,9 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2bodyDefinitionVisitorConte
                 })?
                 .ok_or_else(|| de::Error::invalid_length(0, &self))?;
 
+                // Adding fixtures moves the center of mass and with it the velocity.
+                body.unwrap().borrow_mut().m_linear_velocity = def.linear_velocity;
+
                 Ok(())
             }
 
@@ -122,18 +126,22 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2bodyDefinitionVisitorConte
             where
                 V: MapAccess<'de>,
             {
-                let mut body = None;
+                let mut body: Option<BodyPtr<U>> = None;
+                let mut linear_velocity = B2vec2::default();
                 let world = self.0.m_world;
                 while let Some(key) = map.next_key()? {
                     match key {
                         Field::m_definition => {
                             let def: B2bodyDef<U> = map.next_value()?;
+                            linear_velocity = def.linear_velocity;
                             body = Some(B2world::create_body(world.clone(), &def));
                         }
                         Field::m_fixture_list => {
                             map.next_value_seed(B2fixtureListVisitorContext {
                                 body: Rc::downgrade(&body.clone().unwrap()),
                             })?;
+                            // Adding fixtures moves the center of mass and with it the velocity.
+                            body.as_ref().unwrap().borrow_mut().m_linear_velocity = linear_velocity;
                         }
                     }
                 }
-- 
2.43.0


From 13f012f44320140186fb8638dfd1945127bc48e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:10:50 +0000
Subject: [PATCH 10/16] fix: drop the limit impulses of distance joints when
 warm starting is off

Without warm starting the impulses of the previous step are not applied.
The impulses of the lower and upper limit were kept all the same, so a
limit could pull the bodies towards it, and the reported reaction force
contained impulses that never acted.
---
 src/private/dynamics/joints/b2_distance_joint.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/private/dynamics/joints/b2_distance_joint.rs b/src/private/dynamics/joints/b2_distance_joint.rs
index 0675253..da4a78b 100644
--- a/src/private/dynamics/joints/b2_distance_joint.rs
+++ b/src/private/dynamics/joints/b2_distance_joint.rs
@@ -172,6 +172,8 @@ pub(crate) fn init_velocity_constraints<D: UserDataType>(
 		w_b += self_.m_inv_ib * b2_cross(self_.m_r_b, p);
 	} else {
 		self_.m_impulse = 0.0;
+		self_.m_lower_impulse = 0.0;
+		self_.m_upper_impulse = 0.0;
 	}
 
 	velocities[self_.m_index_a].v = v_a;
-- 
2.43.0


From 62101b05ea07ff5199745f9d8efd1ed2f54c597c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:10:50 +0000
Subject: [PATCH 11/16] fix: forget the impulse of a distance joint that has
 lost its spring

A distance joint with a range and no stiffness only has its limits. The
impulse left by an earlier spring or rigid rod was still applied by warm
starting in every step, as a constant force that nothing corrected.
---
 src/private/dynamics/joints/b2_distance_joint.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/private/dynamics/joints/b2_distance_joint.rs b/src/private/dynamics/joints/b2_distance_joint.rs
index da4a78b..f07efa7 100644
--- a/src/private/dynamics/joints/b2_distance_joint.rs
+++ b/src/private/dynamics/joints/b2_distance_joint.rs
@@ -157,6 +157,11 @@ pub(crate) fn init_velocity_constraints<D: UserDataType>(
 		self_.m_gamma = 0.0;
 		self_.m_bias = 0.0;
 		self_.m_soft_mass = self_.m_mass;
+
+		if self_.m_min_length < self_.m_max_length {
+			// only the limits act
+			self_.m_impulse = 0.0;
+		}
 	}
 
 	if data.step.warm_starting {
-- 
2.43.0


From f97223ddef3b90b0f59c4a1652502d954243af0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:16:26 +0000
Subject: [PATCH 12/16] fix: rope bending must skip corners whose three points
 are all fixed

The angle and triangle bending models divided by the summed inverse masses.
With three consecutive fixed points that sum is zero and the points became NaN.
---
 src/private/rope/b2_rope.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/private/rope/b2_rope.rs b/src/private/rope/b2_rope.rs
index 9ebfe3e..0e5baac 100644
--- a/src/private/rope/b2_rope.rs
+++ b/src/private/rope/b2_rope.rs
@@ -382,6 +382,11 @@ pub(crate) fn solve_bend_pbd_angle(_self: &mut B2rope) {
 			sum = c.inv_effective_mass;
 		}
 
+		// nothing to move: all three points are fixed
+		if sum == 0.0 {
+			continue;
+		}
+
 		let impulse: f32 = -stiffness * angle / sum;
 
 		p1 += (c.inv_mass1 * impulse) * j1;
@@ -635,6 +640,10 @@ fn solve_bend_pbd_triangle(_self: &mut B2rope)
 		let wb1: f32 = c.inv_mass3;
 
 		let w: f32 = wb0 + wb1 + 2.0 * wv;
+		if w == 0.0 {
+			continue;
+		}
+
 		let inv_w: f32 = stiffness / w;
 
 		let d: B2vec2 = v - (1.0 / 3.0) * (b0 + v + b1);
-- 
2.43.0


From 7454e6034b01505f0c0956b61f3394155717bee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:11:36 +0000
Subject: [PATCH 13/16] fix: a body put to sleep must not be swept from its
 previous position

---
 src/b2_body.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/b2_body.rs b/src/b2_body.rs
index c6212b6..c0b00d4 100644
--- a/src/b2_body.rs
+++ b/src/b2_body.rs
@@ -797,6 +797,9 @@ mod inline {
 			self_.m_angular_velocity = 0.0;
 			self_.m_force.set_zero();
 			self_.m_torque = 0.0;
+			// at rest: continuous collision must not sweep the body from where it was a step ago
+			self_.m_sweep.c0 = self_.m_sweep.c;
+			self_.m_sweep.a0 = self_.m_sweep.a;
 		}
 	}
 
-- 
2.43.0


From b5e933f5336667bff5ad032237d468b1beb2f8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:44:44 +0000
Subject: [PATCH 14/16] fix: clamp vectors to their upper bound

b2_clamp_vec2 took the larger of the value and the upper bound, so the
result was never below the upper bound.
---
 src/b2_math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/b2_math.rs b/src/b2_math.rs
index 92454c3..e4c396c 100644
--- a/src/b2_math.rs
+++ b/src/b2_math.rs
@@ -731,7 +731,7 @@ where
 }
 
 pub fn b2_clamp_vec2(a: B2vec2, low: B2vec2, high: B2vec2) -> B2vec2 {
-    return b2_max_vec2(low, b2_max_vec2(a, high));
+    return b2_max_vec2(low, b2_min_vec2(a, high));
 }
 
 pub fn b2_swap<T: Clone>(a: &mut T, b: &mut T) {
-- 
2.43.0


From cd1f3323cfc0afe1939843239d2035ab2609d365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:18:40 +0000
Subject: [PATCH 15/16] fix: gears apply both impulses to a body shared by
 their joints

---
 src/private/dynamics/joints/b2_gear_joint.rs | 118 +++++++------------
 1 file changed, 40 insertions(+), 78 deletions(-)

diff --git a/src/private/dynamics/joints/b2_gear_joint.rs b/src/private/dynamics/joints/b2_gear_joint.rs
index 152b11a..d8daf4b 100644
--- a/src/private/dynamics/joints/b2_gear_joint.rs
+++ b/src/private/dynamics/joints/b2_gear_joint.rs
@@ -209,20 +209,9 @@ pub(crate) fn init_velocity_constraints<D: UserDataType>(self_: &mut B2gearJoint
 	self_.m_i_d = m_body_d.m_inv_i;
 
 	let a_a: f32 =positions[self_.m_index_a as usize].a;
-	let mut v_a: B2vec2 =velocities[self_.m_index_a as usize].v;
-	let mut w_a: f32 =velocities[self_.m_index_a as usize].w;
-
 	let a_b: f32 =positions[self_.m_index_b as usize].a;
-	let mut v_b: B2vec2 =velocities[self_.m_index_b as usize].v;
-	let mut w_b: f32 =velocities[self_.m_index_b as usize].w;
-
 	let a_c: f32 =positions[self_.m_index_c as usize].a;
-	let mut v_c: B2vec2 =velocities[self_.m_index_c as usize].v;
-	let mut w_c: f32 =velocities[self_.m_index_c as usize].w;
-
 	let a_d: f32 =positions[self_.m_index_d as usize].a;
-	let mut v_d: B2vec2 =velocities[self_.m_index_d as usize].v;
-	let mut w_d: f32 =velocities[self_.m_index_d as usize].w;
 
 	let (q_a, q_b, q_c, q_d) = (B2Rot::new(a_a),B2Rot::new(a_b),B2Rot::new(a_c),B2Rot::new(a_d));
 
@@ -270,41 +259,32 @@ pub(crate) fn init_velocity_constraints<D: UserDataType>(self_: &mut B2gearJoint
 
 	if data.step.warm_starting
 	{
-		v_a += (self_.m_m_a * self_.m_impulse) * self_.m_jv_ac;
-		w_a += self_.m_i_a * self_.m_impulse * self_.m_jw_a;
-		v_b += (self_.m_m_b * self_.m_impulse) * self_.m_jv_bd;
-		w_b += self_.m_i_b * self_.m_impulse * self_.m_jw_b;
-		v_c -= (self_.m_m_c * self_.m_impulse) * self_.m_jv_ac;
-		w_c -= self_.m_i_c * self_.m_impulse * self_.m_jw_c;
-		v_d -= (self_.m_m_d * self_.m_impulse) * self_.m_jv_bd;
-		w_d -= self_.m_i_d * self_.m_impulse * self_.m_jw_d;
+		velocities[self_.m_index_a as usize].v += (self_.m_m_a * self_.m_impulse) * self_.m_jv_ac;
+		velocities[self_.m_index_a as usize].w += self_.m_i_a * self_.m_impulse * self_.m_jw_a;
+		velocities[self_.m_index_b as usize].v += (self_.m_m_b * self_.m_impulse) * self_.m_jv_bd;
+		velocities[self_.m_index_b as usize].w += self_.m_i_b * self_.m_impulse * self_.m_jw_b;
+		velocities[self_.m_index_c as usize].v -= (self_.m_m_c * self_.m_impulse) * self_.m_jv_ac;
+		velocities[self_.m_index_c as usize].w -= self_.m_i_c * self_.m_impulse * self_.m_jw_c;
+		velocities[self_.m_index_d as usize].v -= (self_.m_m_d * self_.m_impulse) * self_.m_jv_bd;
+		velocities[self_.m_index_d as usize].w -= self_.m_i_d * self_.m_impulse * self_.m_jw_d;
 	}
 	else
 	{
 		self_.m_impulse = 0.0;
 	}
-
-	velocities[self_.m_index_a as usize].v = v_a;
-	velocities[self_.m_index_a as usize].w = w_a;
-	velocities[self_.m_index_b as usize].v = v_b;
-	velocities[self_.m_index_b as usize].w = w_b;
-	velocities[self_.m_index_c as usize].v = v_c;
-	velocities[self_.m_index_c as usize].w = w_c;
-	velocities[self_.m_index_d as usize].v = v_d;
-	velocities[self_.m_index_d as usize].w = w_d;
 }
 
 pub(crate) fn solve_velocity_constraints<D: UserDataType>(self_: &mut B2gearJoint<D>, 
 	_data: &B2solverData, velocities: &mut [B2velocity])
 {
-	let mut v_a: B2vec2 =velocities[self_.m_index_a as usize].v;
-	let mut w_a: f32 =velocities[self_.m_index_a as usize].w;
-	let mut v_b: B2vec2 =velocities[self_.m_index_b as usize].v;
-	let mut w_b: f32 =velocities[self_.m_index_b as usize].w;
-	let mut v_c: B2vec2 =velocities[self_.m_index_c as usize].v;
-	let mut w_c: f32 =velocities[self_.m_index_c as usize].w;
-	let mut v_d: B2vec2 =velocities[self_.m_index_d as usize].v;
-	let mut w_d: f32 =velocities[self_.m_index_d as usize].w;
+	let v_a: B2vec2 =velocities[self_.m_index_a as usize].v;
+	let w_a: f32 =velocities[self_.m_index_a as usize].w;
+	let v_b: B2vec2 =velocities[self_.m_index_b as usize].v;
+	let w_b: f32 =velocities[self_.m_index_b as usize].w;
+	let v_c: B2vec2 =velocities[self_.m_index_c as usize].v;
+	let w_c: f32 =velocities[self_.m_index_c as usize].w;
+	let v_d: B2vec2 =velocities[self_.m_index_d as usize].v;
+	let w_d: f32 =velocities[self_.m_index_d as usize].w;
 
 	let mut cdot: f32 =b2_dot(self_.m_jv_ac, v_a - v_c) + b2_dot(self_.m_jv_bd, v_b - v_d);
 	cdot += (self_.m_jw_a * w_a - self_.m_jw_c * w_c) + (self_.m_jw_b * w_b - self_.m_jw_d * w_d);
@@ -312,36 +292,27 @@ pub(crate) fn solve_velocity_constraints<D: UserDataType>(self_: &mut B2gearJoin
 	let impulse: f32 =-self_.m_mass * cdot;
 	self_.m_impulse += impulse;
 
-	v_a += (self_.m_m_a * impulse) * self_.m_jv_ac;
-	w_a += self_.m_i_a * impulse * self_.m_jw_a;
-	v_b += (self_.m_m_b * impulse) * self_.m_jv_bd;
-	w_b += self_.m_i_b * impulse * self_.m_jw_b;
-	v_c -= (self_.m_m_c * impulse) * self_.m_jv_ac;
-	w_c -= self_.m_i_c * impulse * self_.m_jw_c;
-	v_d -= (self_.m_m_d * impulse) * self_.m_jv_bd;
-	w_d -= self_.m_i_d * impulse * self_.m_jw_d;
-
-	velocities[self_.m_index_a as usize].v = v_a;
-	velocities[self_.m_index_a as usize].w = w_a;
-	velocities[self_.m_index_b as usize].v = v_b;
-	velocities[self_.m_index_b as usize].w = w_b;
-	velocities[self_.m_index_c as usize].v = v_c;
-	velocities[self_.m_index_c as usize].w = w_c;
-	velocities[self_.m_index_d as usize].v = v_d;
-	velocities[self_.m_index_d as usize].w = w_d;
+	velocities[self_.m_index_a as usize].v += (self_.m_m_a * impulse) * self_.m_jv_ac;
+	velocities[self_.m_index_a as usize].w += self_.m_i_a * impulse * self_.m_jw_a;
+	velocities[self_.m_index_b as usize].v += (self_.m_m_b * impulse) * self_.m_jv_bd;
+	velocities[self_.m_index_b as usize].w += self_.m_i_b * impulse * self_.m_jw_b;
+	velocities[self_.m_index_c as usize].v -= (self_.m_m_c * impulse) * self_.m_jv_ac;
+	velocities[self_.m_index_c as usize].w -= self_.m_i_c * impulse * self_.m_jw_c;
+	velocities[self_.m_index_d as usize].v -= (self_.m_m_d * impulse) * self_.m_jv_bd;
+	velocities[self_.m_index_d as usize].w -= self_.m_i_d * impulse * self_.m_jw_d;
 }
 
 pub(crate) fn solve_position_constraints<D: UserDataType>(self_: &B2gearJoint<D>,
 	_data: &B2solverData, positions: &mut [B2position])->bool
 {
-	let mut c_a: B2vec2 =positions[self_.m_index_a as usize].c;
-	let mut a_a: f32 =positions[self_.m_index_a as usize].a;
-	let mut c_b: B2vec2 =positions[self_.m_index_b as usize].c;
-	let mut a_b: f32 =positions[self_.m_index_b as usize].a;
-	let mut c_c: B2vec2 =positions[self_.m_index_c as usize].c;
-	let mut a_c: f32 =positions[self_.m_index_c as usize].a;
-	let mut c_d: B2vec2 =positions[self_.m_index_d as usize].c;
-	let mut a_d: f32 =positions[self_.m_index_d as usize].a;
+	let c_a: B2vec2 =positions[self_.m_index_a as usize].c;
+	let a_a: f32 =positions[self_.m_index_a as usize].a;
+	let c_b: B2vec2 =positions[self_.m_index_b as usize].c;
+	let a_b: f32 =positions[self_.m_index_b as usize].a;
+	let c_c: B2vec2 =positions[self_.m_index_c as usize].c;
+	let a_c: f32 =positions[self_.m_index_c as usize].a;
+	let c_d: B2vec2 =positions[self_.m_index_d as usize].c;
+	let a_d: f32 =positions[self_.m_index_d as usize].a;
 
 	let (q_a, q_b, q_c, q_d) = (B2Rot::new(a_a),B2Rot::new(a_b),B2Rot::new(a_c),B2Rot::new(a_d));
 
@@ -414,23 +385,14 @@ pub(crate) fn solve_position_constraints<D: UserDataType>(self_: &B2gearJoint<D>
 		impulse = -c / mass;
 	}
 
-	c_a += self_.m_m_a * impulse * jv_ac;
-	a_a += self_.m_i_a * impulse * jw_a;
-	c_b += self_.m_m_b * impulse * jv_bd;
-	a_b += self_.m_i_b * impulse * jw_b;
-	c_c -= self_.m_m_c * impulse * jv_ac;
-	a_c -= self_.m_i_c * impulse * jw_c;
-	c_d -= self_.m_m_d * impulse * jv_bd;
-	a_d -= self_.m_i_d * impulse * jw_d;
-
-	positions[self_.m_index_a as usize].c = c_a;
-	positions[self_.m_index_a as usize].a = a_a;
-	positions[self_.m_index_b as usize].c = c_b;
-	positions[self_.m_index_b as usize].a = a_b;
-	positions[self_.m_index_c as usize].c = c_c;
-	positions[self_.m_index_c as usize].a = a_c;
-	positions[self_.m_index_d as usize].c = c_d;
-	positions[self_.m_index_d as usize].a = a_d;
+	positions[self_.m_index_a as usize].c += self_.m_m_a * impulse * jv_ac;
+	positions[self_.m_index_a as usize].a += self_.m_i_a * impulse * jw_a;
+	positions[self_.m_index_b as usize].c += self_.m_m_b * impulse * jv_bd;
+	positions[self_.m_index_b as usize].a += self_.m_i_b * impulse * jw_b;
+	positions[self_.m_index_c as usize].c -= self_.m_m_c * impulse * jv_ac;
+	positions[self_.m_index_c as usize].a -= self_.m_i_c * impulse * jw_c;
+	positions[self_.m_index_d as usize].c -= self_.m_m_d * impulse * jv_bd;
+	positions[self_.m_index_d as usize].a -= self_.m_i_d * impulse * jw_d;
 
 	// TODO_ERIN not implemented
 	return linear_error < B2_LINEAR_SLOP;
-- 
2.43.0


From 206dabb870f3ddea2d0082ff84c42be905edc629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:19:48 +0000
Subject: [PATCH 16/16] fix: equal limits of prismatic and wheel joints hold at
 the limit instead of zero

---
 src/private/dynamics/joints/b2_prismatic_joint.rs | 4 ++--
 src/private/dynamics/joints/b2_wheel_joint.rs     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/private/dynamics/joints/b2_prismatic_joint.rs b/src/private/dynamics/joints/b2_prismatic_joint.rs
index fcebeba..42ff342 100644
--- a/src/private/dynamics/joints/b2_prismatic_joint.rs
+++ b/src/private/dynamics/joints/b2_prismatic_joint.rs
@@ -382,8 +382,8 @@ pub(crate) fn solve_position_constraints<D: UserDataType>(
 	if self_.m_enable_limit {
 		let translation: f32 = b2_dot(axis, d);
 		if b2_abs(self_.m_upper_translation - self_.m_lower_translation) < 2.0 * B2_LINEAR_SLOP {
-			c2 = translation;
-			linear_error = b2_max(linear_error, b2_abs(translation));
+			c2 = translation - self_.m_lower_translation;
+			linear_error = b2_max(linear_error, b2_abs(c2));
 			active = true;
 		} else if translation <= self_.m_lower_translation {
 			c2 = b2_min(translation - self_.m_lower_translation, 0.0);
diff --git a/src/private/dynamics/joints/b2_wheel_joint.rs b/src/private/dynamics/joints/b2_wheel_joint.rs
index 6caa2b8..bb13b4f 100644
--- a/src/private/dynamics/joints/b2_wheel_joint.rs
+++ b/src/private/dynamics/joints/b2_wheel_joint.rs
@@ -301,7 +301,7 @@ pub(crate) fn solve_position_constraints<D: UserDataType>(
 		let mut c: f32 = 0.0;
 		let translation: f32 = b2_dot(ax, d);
 		if b2_abs(self_.m_upper_translation - self_.m_lower_translation) < 2.0 * B2_LINEAR_SLOP {
-			c = translation;
+			c = translation - self_.m_lower_translation;
 		} else if translation <= self_.m_lower_translation {
 			c = b2_min(translation - self_.m_lower_translation, 0.0);
 		} else if translation >= self_.m_upper_translation {
-- 
2.43.0

