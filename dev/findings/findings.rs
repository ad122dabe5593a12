// One test per known finding; each states what the property demands and fails on the current tree.
use crate::{compile::compiler::compile_burn, component::*, file::FmpFile, testing::test::{TestEnvironment, TestState}, testing::database::*, fm_script_engine::fm_script_engine_instructions::*};

fn steps(code: &str) -> Vec<ScriptStep> { compile_burn(&format!("test t:\n script: [\n define t() {{\n{}\n}}\n ]\nend test;\n", code)).tests.remove(0).script.instructions }
fn script(name: &str, code: &str) -> FMComponentScript { let mut s = FMComponentScript::new(); s.script_name = name.to_string(); s.instructions = steps(code); s }
fn test(name: &str, code: &str) -> FMComponentTest { let mut t = FMComponentTest::new(); t.test_name = name.to_string(); t.script = script(name, code); t }
/// two tables with two fields each, one occurrence each, related by `cmp` on the first fields
fn file(cmp: RelationComparison) -> FmpFile {
    let mut f = FmpFile::new();
    for i in 0..2usize {
        let mut t = FMComponentTable::new(); t.table_name = format!("table{}", i);
        for j in 0..2u16 { let mut c = FMComponentField::new(); c.field_name = format!("field{}", j); t.fields.insert(j, c); }
        f.tables.insert(i, t);
        let mut o = FMComponentTableOccurence::new(); o.table_occurence_name = format!("occ{}", i); o.table_actual = i as u16; f.table_occurrences.insert(i, o);
        let mut l = FMComponentLayout::new(); l.layout_name = format!("lay{}", i); l.table_occurrence = i; f.layouts.insert(i, l);
    }
    let mut r = FMComponentRelationship::new(); r.table1 = 0; r.table2 = 1; r.field1 = 0; r.field2 = 0; r.comparison = cmp; f.relationships.insert(0, r);
    f
}
fn run<'a>(f: &'a FmpFile) -> TestEnvironment<'a> { let mut te = TestEnvironment::new(f); te.generate_test_environment(); te.run_tests(); te }
fn one(code: &str) -> FmpFile { let mut f = file(RelationComparison::Equal); f.tests.push(test("t", code)); f }
fn passes(f: &FmpFile) -> bool { run(f).test_state == TestState::Pass }
fn var(te: &TestEnvironment, n: &str) -> Option<String> { te.get_variable_by_name(0, n).map(|v| v.value.clone()) }
/// steps executed one at a time, at most `n` of them
fn stepped<'a>(f: &'a FmpFile, n: usize) -> TestEnvironment<'a> {
    let mut te = TestEnvironment::new(f); te.generate_test_environment(); te.load_test(f.tests[0].clone());
    for _ in 0..n { if te.instruction_ptr.is_empty() || te.test_state != TestState::Pass { break } te.step() }
    te
}
fn db(n: usize) -> Database {
    let f = file(RelationComparison::Equal); let mut d = Database::new(); d.generate_from_fmp12(&f);
    for i in 0..n { d.create_record(); *d.get_current_record_by_table_field_mut("occ0", "field0").unwrap() = i.to_string(); }
    d
}

#[test] fn v01_test_state() {      // the verdict of a failed test makes the next one fail
    let mut f = one("assert(1 == 2);"); f.tests.push(test("u", "set_variable(x, 1);"));
    assert!(passes(&f));
}
#[test] fn v01_instruction_ptr() {      // the script of a failed test is still on the call stack
    let mut f = one("assert(1 == 2);"); f.tests.push(test("u", "set_variable(x, 1);"));
    assert!(run(&f).instruction_ptr.is_empty() || run(&f).instruction_ptr.len() == 1);
}
#[test] fn v01_variables() {
    let mut f = one("set_variable(x, 1);"); f.tests.push(test("u", "set_variable(y, x);"));
    assert_ne!(var(&run(&f), "y").unwrap(), "1");
}
#[test] fn v01_mode() {      // a test that ends in find mode
    let mut f = one("new_record_request();\nenter_find_mode();"); f.tests.push(test("u", "set_field(occ0::field0, \"a\");"));
    assert_eq!(run(&f).database.tables[0].fields[0].records, vec!["\"a\""]);
}
#[test] fn v01_find_criteria() {
    let mut f = one("enter_find_mode();\nset_field(occ0::field0, \"a\");"); f.tests.push(test("u", ""));
    assert!(run(&f).find_criteria.is_empty());
}
#[test] fn v01_branch_taken() {      // a test that ends inside a branch
    let mut f = one(""); let mut a = test("a", "if(1 == 1) {\n set_variable(x, 1);\n}"); a.script.instructions.pop(); f.tests = vec![a, test("b", "")];
    assert!(!run(&f).branch_taken);
}
#[test] fn v01_records() {
    let mut f = one("new_record_request();"); f.tests.push(test("u", "new_record_request();\nset_field(occ0::field0, \"a\");"));
    let mut te = TestEnvironment::new(&f); te.generate_test_environment();
    te.run_tests_with_cleanup();
    assert!(te.database.table_occurrences[0].found_set.len() <= 1);
}
#[test] fn v01_cleanup_found_set() { let mut d = db(2); d.clear_records(); assert!(d.table_occurrences[0].found_set.is_empty()); }
#[test] fn v01_cleanup_record_ptr() { let mut d = db(2); d.clear_records(); assert_eq!(d.table_occurrences[0].record_ptr, 0); }
#[test] fn v03_perform_script_0_1() {
    let f = one("perform_script(\"nowhere\");"); let te = stepped(&f, 1); assert_eq!(te.variables.len(), te.instruction_ptr.len());
}
#[test] fn v03_end_of_script_1_0() {
    let mut f = one("perform_script(\"s\");\nset_variable(x, 1);"); f.scripts.insert(1, script("s", "set_variable(x, 2);"));
    let te = stepped(&f, 3); assert_eq!(te.variables.len(), te.instruction_ptr.len());
}
#[test] fn v04_perform_script_stays() {
    let f = one("perform_script(\"nowhere\");\nset_variable(x, 1);"); let te = stepped(&f, 50); assert_eq!(var(&te, "x").as_deref(), Some("1"));
}
fn value(code: &str) -> Option<String> { let f = one(code); var(&stepped(&f, 60), "r") }
#[test] fn v05_if_nesting() { assert_eq!(value("set_variable(r, 0);\nif(1 == 2) {\n if(1 == 1) {\n set_variable(x, 1);\n }\n set_variable(r, 1);\n}").as_deref(), Some("0")); }
#[test] fn v05_elseif_nesting() { assert_eq!(value("set_variable(r, 0);\nif(1 == 2) {\n set_variable(x, 1);\n} elif(1 == 2) {\n if(1 == 1) {\n set_variable(x, 1);\n }\n set_variable(r, 1);\n}").as_deref(), Some("0")); }
#[test] fn v05_else_nesting() { assert_eq!(value("set_variable(r, 0);\nif(1 == 1) {\n set_variable(x, 1);\n} else {\n if(1 == 1) {\n set_variable(x, 1);\n }\n set_variable(r, 1);\n}").as_deref(), Some("0")); }
#[test] fn v05_branch_flag() { assert_eq!(value("set_variable(r, 0);\nif(1 == 1) {\n if(1 == 1) {\n set_variable(x, 1);\n }\n} else {\n set_variable(r, 1);\n}").as_deref(), Some("0")); }
#[test] fn v05_exit_loop_if_nesting() { assert_eq!(value("set_variable(r, 0);\nloop {\n exit_loop_if(1 == 1);\n loop {\n exit_loop_if(1 == 1);\n }\n set_variable(r, 1);\n}").as_deref(), Some("0")); }
#[test] fn v05_exit_loop_if_start() {
    // the inner loop is left; the end of the outer one must return to the outer one's start
    assert_eq!(value("set_variable(n, 0);\nset_variable(r, 0);\nloop {\n set_variable(r, r + 1);\n exit_loop_if(r == 3);\n loop {\n exit_loop_if(1 == 1);\n }\n}").as_deref(), Some("3"));
}
#[test] fn v05_page_nesting() { assert_eq!(value("set_variable(r, 0);\nnew_record_request();\nloop {\n go_to_record(\"last\", \"true\");\n loop {\n exit_loop_if(1 == 1);\n }\n set_variable(r, 1);\n exit_loop_if(1 == 1);\n}").as_deref(), Some("0")); }
#[test] fn v05_page_exit() { assert_eq!(value("set_variable(r, 0);\nnew_record_request();\nloop {\n go_to_record(\"last\", \"false\");\n set_variable(r, 1);\n exit_loop_if(1 == 1);\n}").as_deref(), Some("1")); }
#[test] fn v05_page_start() {
    let f = one("new_record_request();\nloop {\n go_to_record(\"last\", \"true\");\n}\nset_variable(x, 1);"); assert!(stepped(&f, 60).loop_scopes.is_empty());
}
#[test] fn v06_exit_script() {
    let mut f = one("set_variable(r, 0);\nset_variable(x, 1);\nset_variable(r, 1);"); f.tests[0].script.instructions[1].opcode = "exit_script".parse::<Instruction>().unwrap();
    assert_eq!(var(&stepped(&f, 9), "r").as_deref(), Some("0"));
}
#[test] fn v07_new_record_request() {
    let f = one("enter_find_mode();\nnew_record_request();"); assert_eq!(run(&f).database.tables[0].get_records_n(), 0);
}
#[test] fn d01_delete_record() {
    let mut d = db(2); d.get_current_table_mut().delete_record(0); assert_eq!(d.tables[0].fields.len(), 2);
}
#[test] fn d02_goto_next_record() { let mut d = db(0); d.goto_next_record(); }
#[test] fn d02_goto_last_record() { let mut d = db(0); d.goto_last_record(); }
#[test] fn d02_goto_record() { let mut d = db(0); d.goto_record(1); }
fn related(cmp: RelationComparison, near: &str, far: &str, from: u16) -> bool {
    let f = file(cmp); let mut d = Database::new(); d.generate_from_fmp12(&f);
    for (i, v) in [near, far].iter().enumerate() { d.set_current_occurrence(i as u16); d.create_record(); *d.get_current_record_by_table_field_mut(&format!("occ{}", i), "field0").unwrap() = v.to_string(); }
    d.set_current_occurrence(from);
    let r = d.get_related_record_field(if from == 0 { "occ1" } else { "occ0" }, "field0").is_ok(); r
}
#[test] fn d04_less() { assert!(!related(RelationComparison::Less, "a", "a", 0)); }
#[test] fn d04_greater() { assert!(!related(RelationComparison::Greater, "a", "a", 0)); }
#[test] fn d04_mirrored() { assert!(related(RelationComparison::LessEqual, "a", "b", 1)); }
#[test] fn d05_read() {      // occ1 is not the current occurrence and has another current record
    let f = one("new_record_request();\nset_field(occ0::field0, \"a\");\nset_variable(x, 1);"); let mut te = TestEnvironment::new(&f); te.generate_test_environment(); te.load_test(f.tests[0].clone());
    for _ in 0..3 { te.step(); }
    te.database.set_current_occurrence(1); te.database.create_record(); te.database.create_record();
    *te.database.get_current_record_by_table_field_mut("occ1", "field0").unwrap() = "\"z\"".to_string();
    te.database.goto_first_record(); *te.database.get_current_record_by_table_field_mut("occ1", "field0").unwrap() = "\"y\"".to_string();
    te.database.goto_last_record(); te.database.set_current_occurrence(0);
    assert_eq!(te.eval_calculation(&"occ1::field0".to_string()), "\"z\"");
}
#[test] fn e04_token() { assert_eq!(value("set_variable(r, \"-\");").as_deref(), Some("\"-\"")); }
#[test] fn e01_gt_text() { assert_eq!(value("set_variable(r, 10 > 9);").as_deref(), Some("true")); }
#[test] fn e01_lt_text() { assert_eq!(value("set_variable(r, 9 < 10);").as_deref(), Some("true")); }
#[test] fn e01_gtq_text() { assert_eq!(value("set_variable(r, 10 >= 9);").as_deref(), Some("true")); }
#[test] fn e01_ltq_text() { assert_eq!(value("set_variable(r, 9 <= 10);").as_deref(), Some("true")); }
#[test] fn e01_eq_text() { assert_eq!(value("set_variable(r, (0 - 1) * 0 == 0);").as_deref(), Some("true")); }
#[test] fn e01_neq_text() { assert_eq!(value("set_variable(r, (0 - 1) * 0 != 0);").as_deref(), Some("false")); }
#[test] fn e01_abs() { assert_eq!(value("set_variable(r, Abs(16777217));").as_deref(), Some("16777217")); }
#[test] fn e01_asin() { assert_eq!(value("set_variable(r, Asin(0));").as_deref(), Some("0")); }
#[test] fn e01_args() { assert_eq!(value("set_variable(r, Min(3, 1));").as_deref(), Some("1")); }
#[test] fn e01_arguments() { assert_eq!(value("set_variable(r, Abs(0 - 3) + 1);").as_deref(), Some("4")); }
#[test] fn d04_hop() {      // occ0.field0 = occ1.field0, occ1.field1 = occ2.field0
    let mut f = file(RelationComparison::Equal); let mut t = f.tables[&1].clone(); t.table_name = "table2".to_string(); f.tables.insert(2, t);
    let mut o = FMComponentTableOccurence::new(); o.table_occurence_name = "occ2".to_string(); o.table_actual = 2; f.table_occurrences.insert(2, o);
    let mut r = FMComponentRelationship::new(); r.table1 = 1; r.table2 = 2; r.field1 = 1; r.field2 = 0; r.comparison = RelationComparison::Equal; f.relationships.insert(1, r);
    let mut d = Database::new(); d.generate_from_fmp12(&f);
    for (o, c, v) in [(0u16, "field0", "a"), (1, "field0", "a"), (1, "field1", "b"), (2, "field0", "b")] {
        d.set_current_occurrence(o); if c == "field0" { d.create_record(); }
        *d.get_current_record_by_table_field_mut(&format!("occ{}", o), c).unwrap() = v.to_string();
    }
    d.set_current_occurrence(0); assert_eq!(d.get_related_record_field("occ2", "field0").ok().as_deref(), Some("b"));
}
