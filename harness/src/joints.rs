//! Readable settings of a joint, as integers.
use crate::util::*;
use crate::world::U;
use box2d_rs::b2_joint::*;
use box2d_rs::b2_math::B2vec2;
use serde_json::{json, Value};

const K: f64 = 256.0;
fn v(x: f32) -> i64 {
    sc(x, K)
}
fn p(x: B2vec2) -> Value {
    json!([sc(x.x, 1024.0), sc(x.y, 1024.0)])
}

pub fn settings(j: &dyn B2jointTraitDyn<U>) -> Value {
    use JointAsDerived::*;
    let aa = p(j.get_anchor_a());
    let ab = p(j.get_anchor_b());
    let mut o = match j.as_derived() {
        EDistanceJoint(j) => json!({
            "la": p(j.get_local_anchor_a()), "lb": p(j.get_local_anchor_b()),
            "length": v(j.get_length()), "min_length": v(j.get_min_length()), "max_length": v(j.get_max_length()),
            "stiffness": v(j.get_stiffness()), "damping": v(j.get_damping()), "cur": sc(j.get_current_length(), 1024.0)}),
        EFrictionJoint(j) => json!({
            "la": p(j.get_local_anchor_a()), "lb": p(j.get_local_anchor_b()),
            "max_force": v(j.get_max_force()), "max_torque": v(j.get_max_torque())}),
        EGearJoint(j) => json!({"ratio": v(j.get_ratio())}),
        EMouseJoint(j) => json!({
            "target": p(j.get_target()), "max_force": v(j.get_max_force()),
            "stiffness": v(j.get_stiffness()), "damping": v(j.get_damping())}),
        EMotorJoint(j) => json!({
            "linear_offset": p(j.get_linear_offset()), "angular_offset": v(j.get_angular_offset()),
            "max_force": v(j.get_max_force()), "max_torque": v(j.get_max_torque()), "correction": v(j.get_correction_factor())}),
        EPulleyJoint(j) => json!({
            "ga": p(j.get_ground_anchor_a()), "gb": p(j.get_ground_anchor_b()),
            "length_a": sc(j.get_length_a(), 1024.0), "length_b": sc(j.get_length_b(), 1024.0), "ratio": v(j.get_ratio()),
            "cur_a": sc(j.get_current_length_a(), 1024.0), "cur_b": sc(j.get_current_length_b(), 1024.0)}),
        ERevoluteJoint(j) => json!({
            "la": p(j.get_local_anchor_a()), "lb": p(j.get_local_anchor_b()), "ref": sc(j.get_reference_angle(), 1024.0),
            "enable_limit": j.is_limit_enabled(), "lo": v(j.get_lower_limit()), "hi": v(j.get_upper_limit()),
            "enable_motor": j.is_motor_enabled(), "motor_speed": v(j.get_motor_speed()), "max_motor": v(j.get_max_motor_torque()),
            "angle": sc(j.get_joint_angle(), 1024.0), "speed": sc(j.get_joint_speed(), 1024.0)}),
        EPrismaticJoint(j) => json!({
            "la": p(j.get_local_anchor_a()), "lb": p(j.get_local_anchor_b()), "ref": sc(j.get_reference_angle(), 1024.0),
            "axis": p(j.get_local_axis_a()), "enable_limit": j.is_limit_enabled(),
            "lo": v(j.get_lower_limit()), "hi": v(j.get_upper_limit()),
            "enable_motor": j.is_motor_enabled(), "motor_speed": v(j.get_motor_speed()), "max_motor": v(j.get_max_motor_force()),
            "trans": sc(j.get_joint_translation(), 1024.0), "speed": sc(j.get_joint_speed(), 1024.0)}),
        EWeldJoint(j) => json!({
            "la": p(j.get_local_anchor_a()), "lb": p(j.get_local_anchor_b()), "ref": sc(j.get_reference_angle(), 1024.0),
            "stiffness": v(j.get_stiffness()), "damping": v(j.get_damping())}),
        EWheelJoint(j) => json!({
            "la": p(j.get_local_anchor_a()), "lb": p(j.get_local_anchor_b()), "axis": p(j.get_local_axis_a()),
            "enable_limit": j.is_limit_enabled(), "lo": v(j.get_lower_limit()), "hi": v(j.get_upper_limit()),
            "enable_motor": j.is_motor_enabled(), "motor_speed": v(j.get_motor_speed()), "max_motor": v(j.get_max_motor_torque()),
            "stiffness": v(j.get_stiffness()), "damping": v(j.get_damping()),
            "trans": sc(j.get_joint_translation(), 1024.0), "lspeed": sc(j.get_joint_linear_speed(), 1024.0),
            "angle": sc(j.get_joint_angle(), 1024.0), "speed": sc(j.get_joint_angular_speed(), 1024.0)}),
    };
    let m = o.as_object_mut().unwrap();
    m.insert("aa".into(), aa);
    m.insert("ab".into(), ab);
    o
}

/// Anchors, readings and last impulses in finer units (2^14).
pub fn forces(j: &dyn B2jointTraitDyn<U>) -> Value {
    use JointAsDerived::*;
    const F: f64 = 16384.0;
    let n = |x: f32| sc(x, F);
    let p = |x: B2vec2| json!([sc(x.x, F), sc(x.y, F)]);
    let z = B2vec2::new(0.0, 0.0);
    // (local anchors, axis, reference angle, motor impulse, coordinate, its rate, second coordinate, its rate)
    let t = match j.as_derived() {
        EDistanceJoint(j) => (j.get_local_anchor_a(), j.get_local_anchor_b(), z, 0.0, 0.0, j.get_current_length(), 0.0, 0.0, 0.0),
        EFrictionJoint(j) => (j.get_local_anchor_a(), j.get_local_anchor_b(), z, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0),
        EGearJoint(_) => (z, z, z, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0),
        EMouseJoint(j) => (j.get_target(), z, z, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0),
        EMotorJoint(j) => (j.get_linear_offset(), z, z, j.get_angular_offset(), 0.0, 0.0, 0.0, 0.0, 0.0),
        EPulleyJoint(j) => {
            (j.get_ground_anchor_a(), j.get_ground_anchor_b(), z, 0.0, 0.0, j.get_current_length_a(), 0.0, j.get_current_length_b(), 0.0)
        }
        ERevoluteJoint(j) => (
            j.get_local_anchor_a(), j.get_local_anchor_b(), z, j.get_reference_angle(), j.get_motor_torque(1.0),
            j.get_joint_angle(), j.get_joint_speed(), 0.0, 0.0,
        ),
        EPrismaticJoint(j) => (
            j.get_local_anchor_a(), j.get_local_anchor_b(), j.get_local_axis_a(), j.get_reference_angle(), j.get_motor_force(1.0),
            j.get_joint_translation(), j.get_joint_speed(), 0.0, 0.0,
        ),
        EWeldJoint(j) => (j.get_local_anchor_a(), j.get_local_anchor_b(), z, j.get_reference_angle(), 0.0, 0.0, 0.0, 0.0, 0.0),
        EWheelJoint(j) => (
            j.get_local_anchor_a(), j.get_local_anchor_b(), j.get_local_axis_a(), 0.0, j.get_motor_torque(1.0),
            j.get_joint_translation(), j.get_joint_linear_speed(), j.get_joint_angle(), j.get_joint_angular_speed(),
        ),
    };
    json!({"la": p(t.0), "lb": p(t.1), "ax": p(t.2), "ref": n(t.3), "mi": n(t.4), "c": n(t.5), "s": n(t.6), "c2": n(t.7), "s2": n(t.8),
        "aa": p(j.get_anchor_a()), "ab": p(j.get_anchor_b()),
        "fi": p(j.get_reaction_force(1.0)), "ti": n(j.get_reaction_torque(1.0))})
}
