const TAGS: &[(OpTag, &[OpTag])] = &[
  (OpTag::Any, &[]),
  (OpTag::None, &[OpTag::Any]),
  (OpTag::ModuleOp, &[OpTag::Any]),
  (OpTag::ModuleRoot, &[OpTag::Any]),
  (OpTag::Function, &[OpTag::ModuleOp, OpTag::StaticOutput]),
  (OpTag::Alias, &[OpTag::ModuleOp]),
  (OpTag::Const, &[OpTag::ScopedDefn, OpTag::StaticOutput]),
  (OpTag::FuncDefn, &[OpTag::Function, OpTag::DataflowParent]),
  (OpTag::ControlFlowChild, &[OpTag::Any]),
  (OpTag::DataflowChild, &[OpTag::Any]),
  (OpTag::DataflowParent, &[OpTag::Any]),
  (OpTag::Dfg, &[OpTag::DataflowChild, OpTag::DataflowParent]),
  (OpTag::Cfg, &[OpTag::DataflowChild]),
  (OpTag::Input, &[OpTag::DataflowChild]),
  (OpTag::Output, &[OpTag::DataflowChild]),
  (OpTag::StaticInput, &[OpTag::Any]),
  (OpTag::StaticOutput, &[OpTag::Any]),
  (OpTag::FnCall, &[OpTag::StaticInput, OpTag::DataflowChild]),
  (OpTag::LoadConst, &[OpTag::StaticInput, OpTag::DataflowChild]),
  (OpTag::LoadFunc, &[OpTag::StaticInput, OpTag::DataflowChild]),
  (OpTag::ScopedDefn, &[OpTag::DataflowChild, OpTag::ControlFlowChild, OpTag::ModuleOp]),
  (OpTag::TailLoop, &[OpTag::DataflowChild, OpTag::DataflowParent]),
  (OpTag::Conditional, &[OpTag::DataflowChild]),
  (OpTag::Case, &[OpTag::Any, OpTag::DataflowParent]),
  (OpTag::Leaf, &[OpTag::DataflowChild]),
  (OpTag::DataflowBlock, &[OpTag::ControlFlowChild, OpTag::DataflowParent]),
  (OpTag::BasicBlockExit, &[OpTag::ControlFlowChild]),
];
