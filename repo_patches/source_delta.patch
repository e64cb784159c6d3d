From c58d058bbfc3a647cfb11d03fc55cc99273fa887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:24 +0000
Subject: [PATCH 01/31] fix: UserChoice passes a halt request on to its
 children

---
 src/lib/sup/oac-tree/instructions/user_choice.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/instructions/user_choice.cpp b/src/lib/sup/oac-tree/instructions/user_choice.cpp
index 69a569e..6f2dba3 100644
--- a/src/lib/sup/oac-tree/instructions/user_choice.cpp
+++ b/src/lib/sup/oac-tree/instructions/user_choice.cpp
@@ -103,13 +103,14 @@ ExecutionStatus UserChoice::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
 void UserChoice::ResetHook(UserInterface& ui)
 {
   m_choice = -1;
-  Halt();
+  m_future.reset();
   ResetChildren(ui);
 }
 
 void UserChoice::HaltImpl()
 {
   m_future.reset();
+  HaltChildren();
 }
 
 std::vector<const Instruction*> UserChoice::NextInstructionsImpl() const
-- 
2.43.0


From 6b74445811183ceed461067235322bc407039d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:17 +0000
Subject: [PATCH 02/31] fix: Choice executes a repeated index as often as it is
 selected

---
 src/lib/sup/oac-tree/instructions/choice.cpp | 49 ++++++++++----------
 src/lib/sup/oac-tree/instructions/choice.h   |  8 ++++
 2 files changed, 33 insertions(+), 24 deletions(-)

diff --git a/src/lib/sup/oac-tree/instructions/choice.cpp b/src/lib/sup/oac-tree/instructions/choice.cpp
index ed00ae3..96b3a5a 100644
--- a/src/lib/sup/oac-tree/instructions/choice.cpp
+++ b/src/lib/sup/oac-tree/instructions/choice.cpp
@@ -46,6 +46,7 @@ Choice::Choice()
   : CompoundInstruction(Choice::Type)
   , m_instruction_list{}
   , m_instruction_list_initialized{false}
+  , m_current_index{0}
 {
   AddAttributeDefinition(Constants::GENERIC_VARIABLE_NAME_ATTRIBUTE_NAME)
     .SetCategory(AttributeCategory::kVariableName).SetMandatory();
@@ -64,17 +65,17 @@ ExecutionStatus Choice::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
     }
     return ExecutionStatus::NOT_FINISHED;
   }
-  for (auto instruction : m_instruction_list)
+  if (m_current_index < m_instruction_list.size())
   {
-    auto child_status = instruction->GetStatus();
-    if (child_status == ExecutionStatus::SUCCESS)
+    auto instruction = m_instruction_list[m_current_index];
+    if (NeedsExecute(instruction->GetStatus()))
     {
-      continue;
+      instruction->ExecuteSingle(ui, ws);
     }
-    if (NeedsExecute(child_status))
+    if (instruction->GetStatus() == ExecutionStatus::SUCCESS)
     {
-      instruction->ExecuteSingle(ui, ws);
-      break;
+      ++m_current_index;
+      PrepareNextInstruction(ui);
     }
   }
   return CalculateCompoundStatus();
@@ -84,25 +85,20 @@ void Choice::ResetHook(UserInterface& ui)
 {
   m_instruction_list.clear();
   m_instruction_list_initialized = false;
+  m_current_index = 0;
   ResetChildren(ui);
 }
 
 std::vector<const Instruction*> Choice::NextInstructionsImpl() const
 {
   std::vector<const Instruction*> result;
-  for (auto instruction : m_instruction_list)
+  if (m_current_index < m_instruction_list.size())
   {
-    auto child_status = instruction->GetStatus();
-    if (child_status == ExecutionStatus::SUCCESS)
-    {
-      continue;
-    }
-    if (ReadyForExecute(child_status))
+    auto instruction = m_instruction_list[m_current_index];
+    if (ReadyForExecute(instruction->GetStatus()))
     {
       result.push_back(instruction);
-      return result;
     }
-    break;
   }
   return result;
 }
@@ -141,17 +137,22 @@ bool Choice::CreateInstructionList(UserInterface& ui, Workspace& ws)
   return true;
 }
 
+void Choice::PrepareNextInstruction(UserInterface& ui)
+{
+  // An index that appears more than once needs its instruction to be executed again.
+  if (m_current_index < m_instruction_list.size()
+      && IsFinishedStatus(m_instruction_list[m_current_index]->GetStatus()))
+  {
+    m_instruction_list[m_current_index]->Reset(ui);
+  }
+}
+
 ExecutionStatus Choice::CalculateCompoundStatus() const
 {
-  for (auto instruction : m_instruction_list)
+  if (m_current_index < m_instruction_list.size())
   {
-    auto child_status = instruction->GetStatus();
-    if (child_status == ExecutionStatus::SUCCESS)
-    {
-      continue;
-    }
-    if (child_status == ExecutionStatus::NOT_STARTED
-        || child_status == ExecutionStatus::NOT_FINISHED)
+    auto child_status = m_instruction_list[m_current_index]->GetStatus();
+    if (ReadyForExecute(child_status))
     {
       return ExecutionStatus::NOT_FINISHED;
     }
diff --git a/src/lib/sup/oac-tree/instructions/choice.h b/src/lib/sup/oac-tree/instructions/choice.h
index 7c4ceef..ca0164a 100644
--- a/src/lib/sup/oac-tree/instructions/choice.h
+++ b/src/lib/sup/oac-tree/instructions/choice.h
@@ -53,6 +53,8 @@ private:
 
   bool m_instruction_list_initialized;
 
+  std::size_t m_current_index;
+
   ExecutionStatus ExecuteSingleImpl(UserInterface& ui, Workspace& ws) override;
 
   void ResetHook(UserInterface& ui) override;
@@ -61,6 +63,12 @@ private:
 
   bool CreateInstructionList(UserInterface& ui, Workspace& ws);
 
+  /**
+   * @brief Make sure the next selected child instruction can be executed, also when it was already
+   * selected before.
+   */
+  void PrepareNextInstruction(UserInterface& ui);
+
   /**
    * @brief Calculate this instruction's status from the status of its selected child instructions.
    */
-- 
2.43.0


From 421187a781f24f100e2fc55fb7f34de57d214fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:33 +0000
Subject: [PATCH 03/31] fix: halting while a user reply is polled does not use
 a released future

---
 src/lib/sup/oac-tree/instructions/input.cpp   | 18 ++++++++++--------
 src/lib/sup/oac-tree/instructions/input.h     |  5 +++--
 .../sup/oac-tree/instructions/user_choice.cpp | 16 +++++++++-------
 .../sup/oac-tree/instructions/user_choice.h   |  4 +++-
 .../instructions/user_confirmation.cpp        | 19 +++++++++++--------
 .../oac-tree/instructions/user_confirmation.h |  7 +++++--
 6 files changed, 41 insertions(+), 28 deletions(-)

diff --git a/src/lib/sup/oac-tree/instructions/input.cpp b/src/lib/sup/oac-tree/instructions/input.cpp
index 6c145c3..ebcb6b8 100644
--- a/src/lib/sup/oac-tree/instructions/input.cpp
+++ b/src/lib/sup/oac-tree/instructions/input.cpp
@@ -59,8 +59,9 @@ bool Input::InitHook(UserInterface& ui, Workspace& ws)
   {
     return false;
   }
-  m_future = CreateUserValueFuture(ui, *this, value, description);
-  if (!m_future)
+  std::shared_ptr<IUserInputFuture> future = CreateUserValueFuture(ui, *this, value, description);
+  std::atomic_store(&m_future, future);
+  if (!future)
   {
     return false;
   }
@@ -69,11 +70,12 @@ bool Input::InitHook(UserInterface& ui, Workspace& ws)
 
 ExecutionStatus Input::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
 {
-  if (IsHaltRequested() || !m_future)
+  auto future = std::atomic_load(&m_future);
+  if (IsHaltRequested() || !future)
   {
     return ExecutionStatus::FAILURE;
   }
-  return PollInputFuture(ui, ws);
+  return PollInputFuture(*future, ui, ws);
 }
 
 void Input::ResetHook(UserInterface& ui)
@@ -83,16 +85,16 @@ void Input::ResetHook(UserInterface& ui)
 
 void Input::HaltImpl()
 {
-  m_future.reset();
+  std::atomic_store(&m_future, std::shared_ptr<IUserInputFuture>{});
 }
 
-ExecutionStatus Input::PollInputFuture(UserInterface& ui, Workspace& ws)
+ExecutionStatus Input::PollInputFuture(IUserInputFuture& future, UserInterface& ui, Workspace& ws)
 {
-  if (!m_future->IsReady())
+  if (!future.IsReady())
   {
     return ExecutionStatus::RUNNING;
   }
-  auto reply = m_future->GetValue();
+  auto reply = future.GetValue();
   auto [success, user_value] = ParseUserValueReply(reply);
   if (!success)
   {
diff --git a/src/lib/sup/oac-tree/instructions/input.h b/src/lib/sup/oac-tree/instructions/input.h
index 32ed0e9..dc18286 100644
--- a/src/lib/sup/oac-tree/instructions/input.h
+++ b/src/lib/sup/oac-tree/instructions/input.h
@@ -48,7 +48,8 @@ public:
   static const std::string Type;
 
 private:
-  std::unique_ptr<IUserInputFuture> m_future;
+  // Accessed atomically: a halt request may come from another thread
+  std::shared_ptr<IUserInputFuture> m_future;
 
   bool InitHook(UserInterface& ui, Workspace& ws) override;
 
@@ -58,7 +59,7 @@ private:
 
   void HaltImpl() override;
 
-  ExecutionStatus PollInputFuture(UserInterface& ui, Workspace& ws);
+  ExecutionStatus PollInputFuture(IUserInputFuture& future, UserInterface& ui, Workspace& ws);
 };
 
 }  // namespace oac_tree
diff --git a/src/lib/sup/oac-tree/instructions/user_choice.cpp b/src/lib/sup/oac-tree/instructions/user_choice.cpp
index 6f2dba3..243f539 100644
--- a/src/lib/sup/oac-tree/instructions/user_choice.cpp
+++ b/src/lib/sup/oac-tree/instructions/user_choice.cpp
@@ -55,8 +55,9 @@ bool UserChoice::InitHook(UserInterface& ui, Workspace& ws)
   metadata.AddMember(Constants::USER_CHOICES_DIALOG_TYPE_NAME,
                      {sup::dto::UnsignedInteger32Type, dialog_type::kSelection});
   auto options = GetChoices();
-  m_future = CreateUserChoiceFuture(ui, *this, options, metadata);
-  if (!m_future)
+  std::shared_ptr<IUserInputFuture> future = CreateUserChoiceFuture(ui, *this, options, metadata);
+  std::atomic_store(&m_future, future);
+  if (!future)
   {
     return false;
   }
@@ -65,17 +66,18 @@ bool UserChoice::InitHook(UserInterface& ui, Workspace& ws)
 
 ExecutionStatus UserChoice::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
 {
-  if (IsHaltRequested() || !m_future)
+  auto future = std::atomic_load(&m_future);
+  if (IsHaltRequested() || !future)
   {
     return ExecutionStatus::FAILURE;
   }
   if (m_choice < 0)
   {
-    if (!m_future->IsReady())
+    if (!future->IsReady())
     {
       return ExecutionStatus::RUNNING;
     }
-    auto reply = m_future->GetValue();
+    auto reply = future->GetValue();
     auto [success, choice] = ParseUserChoiceReply(reply);
     if (!success)
     {
@@ -103,13 +105,13 @@ ExecutionStatus UserChoice::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
 void UserChoice::ResetHook(UserInterface& ui)
 {
   m_choice = -1;
-  m_future.reset();
+  std::atomic_store(&m_future, std::shared_ptr<IUserInputFuture>{});
   ResetChildren(ui);
 }
 
 void UserChoice::HaltImpl()
 {
-  m_future.reset();
+  std::atomic_store(&m_future, std::shared_ptr<IUserInputFuture>{});
   HaltChildren();
 }
 
diff --git a/src/lib/sup/oac-tree/instructions/user_choice.h b/src/lib/sup/oac-tree/instructions/user_choice.h
index c9be1da..0ed6974 100644
--- a/src/lib/sup/oac-tree/instructions/user_choice.h
+++ b/src/lib/sup/oac-tree/instructions/user_choice.h
@@ -25,6 +25,7 @@
 
 #include <sup/oac-tree/compound_instruction.h>
 
+#include <memory>
 #include <string>
 #include <vector>
 
@@ -49,7 +50,8 @@ public:
 
 private:
   sup::dto::int32 m_choice;
-  std::unique_ptr<IUserInputFuture> m_future;
+  // Accessed atomically: a halt request may come from another thread
+  std::shared_ptr<IUserInputFuture> m_future;
 
   bool InitHook(UserInterface& ui, Workspace& ws) override;
 
diff --git a/src/lib/sup/oac-tree/instructions/user_confirmation.cpp b/src/lib/sup/oac-tree/instructions/user_confirmation.cpp
index 05bfd65..87f3689 100644
--- a/src/lib/sup/oac-tree/instructions/user_confirmation.cpp
+++ b/src/lib/sup/oac-tree/instructions/user_confirmation.cpp
@@ -69,8 +69,9 @@ bool UserConfirmation::InitHook(UserInterface& ui, Workspace& ws)
   metadata.AddMember(Constants::USER_CHOICES_DIALOG_TYPE_NAME,
                      {sup::dto::UnsignedInteger32Type, dialog_type::kConfirmation});
   std::vector<std::string> options = { ok_text, cancel_text };
-  m_future = CreateUserChoiceFuture(ui, *this, options, metadata);
-  if (!m_future)
+  std::shared_ptr<IUserInputFuture> future = CreateUserChoiceFuture(ui, *this, options, metadata);
+  std::atomic_store(&m_future, future);
+  if (!future)
   {
     return false;
   }
@@ -79,11 +80,12 @@ bool UserConfirmation::InitHook(UserInterface& ui, Workspace& ws)
 
 ExecutionStatus UserConfirmation::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
 {
-  if (IsHaltRequested() || !m_future)
+  auto future = std::atomic_load(&m_future);
+  if (IsHaltRequested() || !future)
   {
     return ExecutionStatus::FAILURE;
   }
-  return PollInputFuture(ui, ws);
+  return PollInputFuture(*future, ui, ws);
 }
 
 void UserConfirmation::ResetHook(UserInterface& ui)
@@ -93,16 +95,17 @@ void UserConfirmation::ResetHook(UserInterface& ui)
 
 void UserConfirmation::HaltImpl()
 {
-  m_future.reset();
+  std::atomic_store(&m_future, std::shared_ptr<IUserInputFuture>{});
 }
 
-ExecutionStatus UserConfirmation::PollInputFuture(UserInterface& ui, Workspace& ws)
+ExecutionStatus UserConfirmation::PollInputFuture(IUserInputFuture& future, UserInterface& ui,
+                                                  Workspace& ws)
 {
-  if (!m_future->IsReady())
+  if (!future.IsReady())
   {
     return ExecutionStatus::RUNNING;
   }
-  auto reply = m_future->GetValue();
+  auto reply = future.GetValue();
   auto [success, choice] = ParseUserChoiceReply(reply);
   if (!success)
   {
diff --git a/src/lib/sup/oac-tree/instructions/user_confirmation.h b/src/lib/sup/oac-tree/instructions/user_confirmation.h
index 086299f..a8f8e3a 100644
--- a/src/lib/sup/oac-tree/instructions/user_confirmation.h
+++ b/src/lib/sup/oac-tree/instructions/user_confirmation.h
@@ -25,6 +25,8 @@
 
 #include <sup/oac-tree/instruction.h>
 
+#include <memory>
+
 namespace sup
 {
 namespace oac_tree
@@ -43,7 +45,8 @@ public:
   static const std::string Type;
 
 private:
-  std::unique_ptr<IUserInputFuture> m_future;
+  // Accessed atomically: a halt request may come from another thread
+  std::shared_ptr<IUserInputFuture> m_future;
 
   bool InitHook(UserInterface& ui, Workspace& ws) override;
 
@@ -53,7 +56,7 @@ private:
 
   void HaltImpl() override;
 
-  ExecutionStatus PollInputFuture(UserInterface& ui, Workspace& ws);
+  ExecutionStatus PollInputFuture(IUserInputFuture& future, UserInterface& ui, Workspace& ws);
 };
 
 }  // namespace oac_tree
-- 
2.43.0


From 59d841e8e064d048a732f59e5db871b22a5179c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:13 +0000
Subject: [PATCH 04/31] fix: a decorator does not lose a halt request when it
 resets its child

---
 src/lib/sup/oac-tree/instructions/decorator_instruction.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/sup/oac-tree/instructions/decorator_instruction.cpp b/src/lib/sup/oac-tree/instructions/decorator_instruction.cpp
index 3d6213a..fbe5edc 100644
--- a/src/lib/sup/oac-tree/instructions/decorator_instruction.cpp
+++ b/src/lib/sup/oac-tree/instructions/decorator_instruction.cpp
@@ -67,6 +67,11 @@ ExecutionStatus DecoratorInstruction::GetChildStatus() const
 void DecoratorInstruction::ExecuteChild(UserInterface& ui, Workspace& ws)
 {
   AssertChildPresent();
+  if (IsHaltRequested())
+  {
+    // Resetting the child after this instruction was halted clears the child's halt request.
+    HaltChild();
+  }
   m_child->ExecuteSingle(ui, ws);
 }
 
-- 
2.43.0


From 04a6ab593e8171967e3fc037d07cb6bb06902271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:09 +0000
Subject: [PATCH 05/31] fix: Procedure stops its instructions before it tears
 down the workspaces they use

---
 src/lib/sup/oac-tree/procedure/procedure.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/lib/sup/oac-tree/procedure/procedure.cpp b/src/lib/sup/oac-tree/procedure/procedure.cpp
index 71de808..84f8915 100644
--- a/src/lib/sup/oac-tree/procedure/procedure.cpp
+++ b/src/lib/sup/oac-tree/procedure/procedure.cpp
@@ -218,12 +218,13 @@ void Procedure::Halt()
 
 void Procedure::Reset(UserInterface& ui)
 {
-  m_workspace->Teardown();
-  m_procedure_store->ResetProcedureWorkspaces(ui);
+  // Wait for termination of instructions first, as they may still use the workspaces:
   if (RootInstruction() != nullptr)
   {
     RootInstruction()->Reset(ui);
   }
+  m_workspace->Teardown();
+  m_procedure_store->ResetProcedureWorkspaces(ui);
   m_workspace->Setup();
 }
 
@@ -318,14 +319,14 @@ void Procedure::SetupPreamble()
 
 void Procedure::Teardown(UserInterface& ui)
 {
-  m_workspace->Teardown();
-  m_procedure_store->TearDownProcedures(ui);
-  if (RootInstruction() == nullptr)
+  // Wait for termination of instructions first, as they may still use the workspaces:
+  if (RootInstruction() != nullptr)
   {
-    return;
+    RootInstruction()->Reset(ui);  // instructions are reset instead of torn down.
+    m_attribute_handler.ClearFailedConstraints();
   }
-  RootInstruction()->Reset(ui);  // instructions are reset instead of torn down.
-  m_attribute_handler.ClearFailedConstraints();
+  m_workspace->Teardown();
+  m_procedure_store->TearDownProcedures(ui);
 }
 
 const ProcedureStore& Procedure::GetProcedureStore() const
-- 
2.43.0


From 8f4439aa1c30e2b5ba75432a668c011cb5387565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:42 +0000
Subject: [PATCH 06/31] fix: setting up and tearing down a variable excludes
 concurrent access to its value

---
 src/lib/sup/oac-tree/variables/variable.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/sup/oac-tree/variables/variable.cpp b/src/lib/sup/oac-tree/variables/variable.cpp
index 7b32f8c..f3079c3 100644
--- a/src/lib/sup/oac-tree/variables/variable.cpp
+++ b/src/lib/sup/oac-tree/variables/variable.cpp
@@ -76,6 +76,7 @@ void Variable::SetName(const std::string &name)
 
 SetupTeardownActions Variable::Setup(const Workspace& ws)
 {
+  std::lock_guard<std::mutex> lk(m_access_mutex);
   if (!m_attribute_handler.ValidateAttributes())
   {
     auto error_message =
@@ -166,6 +167,7 @@ void Variable::SetNotifyCallback(Callback func)
 
 void Variable::Teardown()
 {
+  std::lock_guard<std::mutex> lk(m_access_mutex);
   TeardownImpl();
   m_attribute_handler.ClearFailedConstraints();
   m_setup_successful = false;
-- 
2.43.0


From 67c7b3fbd322f2b8b3d549caf6173f9697aaf4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:42 +0000
Subject: [PATCH 07/31] fix: Runner does not report breakpoints of an earlier
 execution as current

---
 src/lib/sup/oac-tree/runner/runner.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/sup/oac-tree/runner/runner.cpp b/src/lib/sup/oac-tree/runner/runner.cpp
index 70abdd8..ab85e65 100644
--- a/src/lib/sup/oac-tree/runner/runner.cpp
+++ b/src/lib/sup/oac-tree/runner/runner.cpp
@@ -88,6 +88,7 @@ std::vector<Breakpoint> Runner::GetBreakpoints() const
 void Runner::ExecuteProcedure()
 {
   m_halt.store(false);
+  m_current_breakpoint_instructions.clear();
   if (!m_proc)
   {
     return;
@@ -111,6 +112,7 @@ void Runner::ExecuteSingle()
 {
   if (m_proc)
   {
+    m_current_breakpoint_instructions.clear();
     m_proc->ExecuteSingle(m_ui);
     m_breakpoint_manager->ResetBreakpoints();
     if (m_tick_cb)
-- 
2.43.0


From f1353114616ad85046000cd31efd80231b3f5bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:08 +0000
Subject: [PATCH 08/31] fix: AsyncInputAdapter waits for its handler thread
 before its members are destroyed

---
 src/lib/sup/oac-tree/base/async_input_adapter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/sup/oac-tree/base/async_input_adapter.cpp b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
index aa4a0bc..b3f5d70 100644
--- a/src/lib/sup/oac-tree/base/async_input_adapter.cpp
+++ b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
@@ -60,6 +60,8 @@ AsyncInputAdapter::~AsyncInputAdapter()
     m_halt = true;
   }
   m_cv.notify_one();
+  // The handler thread uses members that are destroyed before its future:
+  m_handler_future.wait();
 }
 
 std::unique_ptr<IUserInputFuture> AsyncInputAdapter::AddUserInputRequest(
-- 
2.43.0


From 134c3318a0357986c5a08659c07b778a41312e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:20 +0000
Subject: [PATCH 09/31] fix: LocalJob destroys its procedure before the
 interface its instructions use

---
 src/lib/sup/oac-tree/runner/local_job.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/lib/sup/oac-tree/runner/local_job.cpp b/src/lib/sup/oac-tree/runner/local_job.cpp
index e346906..b07586e 100644
--- a/src/lib/sup/oac-tree/runner/local_job.cpp
+++ b/src/lib/sup/oac-tree/runner/local_job.cpp
@@ -32,12 +32,12 @@ namespace oac_tree
 struct LocalJob::LocalJobImpl
 {
   LocalJobImpl(std::unique_ptr<Procedure> proc, IJobInfoIO& job_info_io);
-  ~LocalJobImpl() = default;
+  ~LocalJobImpl();
 
   std::unique_ptr<Procedure> m_proc;
   JobInterfaceAdapter m_job_interface;
 
-  AsyncRunner m_runner;
+  std::unique_ptr<AsyncRunner> m_runner;
   std::unique_ptr<JobInfo> m_job_info;
   std::vector<const oac_tree::Instruction*> m_ordered_instructions;
 };
@@ -113,13 +113,13 @@ void LocalJob::Halt()
 
 AsyncRunner& LocalJob::Runner()
 {
-  return m_impl->m_runner;
+  return *m_impl->m_runner;
 }
 
 LocalJob::LocalJobImpl::LocalJobImpl(std::unique_ptr<Procedure> proc, IJobInfoIO& job_info_io)
   : m_proc{std::move(proc)}
   , m_job_interface{*m_proc, job_info_io}
-  , m_runner{*m_proc, m_job_interface}
+  , m_runner{new AsyncRunner{*m_proc, m_job_interface}}
   , m_job_info{}
   , m_ordered_instructions{}
 {
@@ -129,6 +129,14 @@ LocalJob::LocalJobImpl::LocalJobImpl(std::unique_ptr<Procedure> proc, IJobInfoIO
   m_ordered_instructions = m_job_interface.GetOrderedInstructions();
 }
 
+LocalJob::LocalJobImpl::~LocalJobImpl()
+{
+  // Until they are destroyed, instructions may still use the job interface (e.g. for child threads
+  // or pending user input), so both the runner and procedure need to be destroyed first.
+  m_runner.reset();
+  m_proc.reset();
+}
+
 }  // namespace oac_tree
 
 }  // namespace sup
-- 
2.43.0


From e901b8ac799bd2a4b26a7d13c452e9397b7192aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:34 +0000
Subject: [PATCH 10/31] fix: halting while a user request is being made cancels
 that request

---
 src/lib/sup/oac-tree/instructions/input.cpp             | 5 +++++
 src/lib/sup/oac-tree/instructions/user_choice.cpp       | 5 +++++
 src/lib/sup/oac-tree/instructions/user_confirmation.cpp | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/src/lib/sup/oac-tree/instructions/input.cpp b/src/lib/sup/oac-tree/instructions/input.cpp
index ebcb6b8..64907a6 100644
--- a/src/lib/sup/oac-tree/instructions/input.cpp
+++ b/src/lib/sup/oac-tree/instructions/input.cpp
@@ -65,6 +65,11 @@ bool Input::InitHook(UserInterface& ui, Workspace& ws)
   {
     return false;
   }
+  if (IsHaltRequested())
+  {
+    // Halted while making the request, so the user should no longer be asked:
+    std::atomic_store(&m_future, std::shared_ptr<IUserInputFuture>{});
+  }
   return true;
 }
 
diff --git a/src/lib/sup/oac-tree/instructions/user_choice.cpp b/src/lib/sup/oac-tree/instructions/user_choice.cpp
index 243f539..5578bb6 100644
--- a/src/lib/sup/oac-tree/instructions/user_choice.cpp
+++ b/src/lib/sup/oac-tree/instructions/user_choice.cpp
@@ -61,6 +61,11 @@ bool UserChoice::InitHook(UserInterface& ui, Workspace& ws)
   {
     return false;
   }
+  if (IsHaltRequested())
+  {
+    // Halted while making the request, so the user should no longer be asked:
+    std::atomic_store(&m_future, std::shared_ptr<IUserInputFuture>{});
+  }
   return true;
 }
 
diff --git a/src/lib/sup/oac-tree/instructions/user_confirmation.cpp b/src/lib/sup/oac-tree/instructions/user_confirmation.cpp
index 87f3689..0fcc8be 100644
--- a/src/lib/sup/oac-tree/instructions/user_confirmation.cpp
+++ b/src/lib/sup/oac-tree/instructions/user_confirmation.cpp
@@ -75,6 +75,11 @@ bool UserConfirmation::InitHook(UserInterface& ui, Workspace& ws)
   {
     return false;
   }
+  if (IsHaltRequested())
+  {
+    // Halted while making the request, so the user should no longer be asked:
+    std::atomic_store(&m_future, std::shared_ptr<IUserInputFuture>{});
+  }
   return true;
 }
 
-- 
2.43.0


From 170a25a60857e0e9059973e268f4076a7fb95a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:34 +0000
Subject: [PATCH 11/31] fix: LocalVariable reports the value it holds after a
 conversion

---
 src/lib/sup/oac-tree/variables/local_variable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/variables/local_variable.cpp b/src/lib/sup/oac-tree/variables/local_variable.cpp
index b53e95b..921602d 100644
--- a/src/lib/sup/oac-tree/variables/local_variable.cpp
+++ b/src/lib/sup/oac-tree/variables/local_variable.cpp
@@ -87,7 +87,7 @@ bool LocalVariable::SetValueImpl(const sup::dto::AnyValue& value)
   }
   if (result)
   {
-    Notify(value, true);
+    Notify(m_value, true);
   }
   return result;
 }
-- 
2.43.0


From 845fc3461d7f606e1a7c7e29a49ef1cf68b34ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:08 +0000
Subject: [PATCH 12/31] fix: Workspace::WaitForVariable does not miss an update
 of the variable

---
 src/lib/sup/oac-tree/procedure/workspace.cpp | 22 +++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/lib/sup/oac-tree/procedure/workspace.cpp b/src/lib/sup/oac-tree/procedure/workspace.cpp
index f7e759d..a01b950 100644
--- a/src/lib/sup/oac-tree/procedure/workspace.cpp
+++ b/src/lib/sup/oac-tree/procedure/workspace.cpp
@@ -164,17 +164,29 @@ bool Workspace::WaitForVariable(const std::string& name, double timeout_sec, boo
   auto timeout_duration = std::chrono::duration<double>(timeout_sec);
   int dummy_listener; // to get a unique address
   std::mutex mx;
-  std::unique_lock<std::mutex> lk(mx);
+  bool updated = false;
   std::condition_variable cv;
   auto cb_guard = GetCallbackGuard(&dummy_listener);
-  auto callback = [&cv](const auto&, auto){
+  auto callback = [&mx, &updated, &cv](const auto&, auto){
+                    std::lock_guard<std::mutex> lk(mx);
+                    updated = true;
                     cv.notify_one();
                   };
   RegisterCallback(name, callback, &dummy_listener);
-  cv.wait_for(lk, timeout_duration, [&it, availability]{
+  const auto deadline = std::chrono::steady_clock::now() + timeout_duration;
+  while (it->second->IsAvailable() != availability)
+  {
+    // The variable is never accessed while holding the lock, since its notifications take that lock
+    // too. An update that comes before waiting for it is not lost.
+    std::unique_lock<std::mutex> lk(mx);
+    if (!cv.wait_until(lk, deadline, [&updated]{ return updated; }))
+    {
+      lk.unlock();
       return it->second->IsAvailable() == availability;
-    });
-  return it->second->IsAvailable() == availability;
+    }
+    updated = false;
+  }
+  return true;
 }
 
 std::vector<const Variable*> Workspace::GetVariables() const
-- 
2.43.0


From 54876d51efbfbd05c0d8371078bf1327bf1b39e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:44 +0000
Subject: [PATCH 13/31] fix: a timeout that is not a number is outside of the
 limits

---
 src/lib/sup/oac-tree/instructions/instruction_utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/instructions/instruction_utils.cpp b/src/lib/sup/oac-tree/instructions/instruction_utils.cpp
index 3e9e829..cce039d 100644
--- a/src/lib/sup/oac-tree/instructions/instruction_utils.cpp
+++ b/src/lib/sup/oac-tree/instructions/instruction_utils.cpp
@@ -37,7 +37,8 @@ namespace instruction_utils
 
 bool ConvertToTimeoutNanoseconds(sup::dto::float64 timeout_sec, sup::dto::int64& timeout_ns)
 {
-  if (timeout_sec < 0.0 || timeout_sec > kMaxTimeoutSeconds)
+  // Written such that NaN is not accepted
+  if (!(timeout_sec >= 0.0 && timeout_sec <= kMaxTimeoutSeconds))
   {
     return false;
   }
-- 
2.43.0


From 13d63aed1cbda996360c627ffffb8194d10dd184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:44 +0000
Subject: [PATCH 14/31] fix: WaitForVariables resolves a varType that refers to
 a variable

---
 src/lib/sup/oac-tree/instructions/wait_for_variables.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/instructions/wait_for_variables.cpp b/src/lib/sup/oac-tree/instructions/wait_for_variables.cpp
index d2cded5..78f0318 100644
--- a/src/lib/sup/oac-tree/instructions/wait_for_variables.cpp
+++ b/src/lib/sup/oac-tree/instructions/wait_for_variables.cpp
@@ -69,7 +69,11 @@ bool WaitForVariables::InitHook(UserInterface& ui, Workspace& ws)
     return false;
   }
   m_finish = utils::GetNanosecsSinceEpoch() + timeout_ns;
-  const auto var_type = GetAttributeString(Constants::VARIABLE_TYPE_ATTRIBUTE_NAME);
+  std::string var_type;
+  if (!GetAttributeValueAs(Constants::VARIABLE_TYPE_ATTRIBUTE_NAME, ws, ui, var_type))
+  {
+    return false;
+  }
   m_var_names = GetVarNamesOfType(ws, var_type);
   return true;
 }
-- 
2.43.0


From 02dcd579bada47c2f746a6e847d441f4f22e3acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:39 +0000
Subject: [PATCH 15/31] fix: copying an empty constraint gives an empty
 constraint

---
 src/lib/sup/oac-tree/attributes/constraint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/attributes/constraint.cpp b/src/lib/sup/oac-tree/attributes/constraint.cpp
index 5436e16..f936223 100644
--- a/src/lib/sup/oac-tree/attributes/constraint.cpp
+++ b/src/lib/sup/oac-tree/attributes/constraint.cpp
@@ -31,7 +31,7 @@ IConstraint::~IConstraint() = default;
 Constraint::~Constraint() = default;
 
 Constraint::Constraint(const Constraint& other)
-  : m_impl{other.m_impl->Clone()}
+  : m_impl{other.m_impl ? other.m_impl->Clone() : nullptr}
 {}
 
 Constraint::Constraint(Constraint&& other)
-- 
2.43.0


From 5d8b902669ff4ceb30f0dd180a848baef0575db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:19 +0000
Subject: [PATCH 16/31] fix: the XML text of a procedure contains its
 attributes

---
 .../sup/oac-tree/parser/procedure_to_treedata_utils.cpp    | 4 ++++
 src/lib/sup/oac-tree/procedure.h                           | 7 +++++++
 src/lib/sup/oac-tree/procedure/procedure.cpp               | 5 +++++
 3 files changed, 16 insertions(+)

diff --git a/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp b/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp
index 72077d4..85a5b05 100644
--- a/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp
+++ b/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp
@@ -92,6 +92,10 @@ namespace oac_tree
 std::unique_ptr<sup::xml::TreeData> ToTreeData(const Procedure& procedure)
 {
   auto result = internal::make_unique<sup::xml::TreeData>(Constants::PROCEDURE_ELEMENT_NAME);
+  for (const auto& [attr_name, attr_value] : procedure.GetStringAttributes())
+  {
+    result->AddAttribute(attr_name, attr_value);
+  }
   internal::AddPreamble(*result, procedure.GetPreamble());
   for (auto instruction : procedure.GetTopInstructions())
   {
diff --git a/src/lib/sup/oac-tree/procedure.h b/src/lib/sup/oac-tree/procedure.h
index 5b2b60e..c87ccb7 100644
--- a/src/lib/sup/oac-tree/procedure.h
+++ b/src/lib/sup/oac-tree/procedure.h
@@ -235,6 +235,13 @@ public:
    */
   std::string GetAttributeString(const std::string& name) const;
 
+  /**
+   * @brief Get all attributes (string representations).
+   *
+   * @return List of attributes in the order they were added.
+   */
+  const StringAttributeList& GetStringAttributes() const;
+
   /**
    * @brief Set attribute with given name and value.
    *
diff --git a/src/lib/sup/oac-tree/procedure/procedure.cpp b/src/lib/sup/oac-tree/procedure/procedure.cpp
index 84f8915..7ff33a9 100644
--- a/src/lib/sup/oac-tree/procedure/procedure.cpp
+++ b/src/lib/sup/oac-tree/procedure/procedure.cpp
@@ -247,6 +247,11 @@ std::string Procedure::GetAttributeString(const std::string &name) const
   return GetStringAttributeValue(m_attribute_handler.GetStringAttributes(), name);
 }
 
+const StringAttributeList& Procedure::GetStringAttributes() const
+{
+  return m_attribute_handler.GetStringAttributes();
+}
+
 bool Procedure::AddAttribute(const std::string &name, const std::string &value)
 {
   return m_attribute_handler.AddStringAttribute(name, value);
-- 
2.43.0


From 2328171deee0c49c5b6253e3e033710f81a79a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:40 +0000
Subject: [PATCH 17/31] fix: an instruction that includes itself is refused at
 setup

---
 src/lib/sup/oac-tree/instructions/include.cpp |  1 +
 .../instructions/include_procedure.cpp        |  1 +
 .../instructions/instruction_helper.cpp       | 28 +++++++++++++++++++
 .../instructions/instruction_helper.h         | 23 +++++++++++++++
 4 files changed, 53 insertions(+)

diff --git a/src/lib/sup/oac-tree/instructions/include.cpp b/src/lib/sup/oac-tree/instructions/include.cpp
index b488cb2..f6cfaac 100644
--- a/src/lib/sup/oac-tree/instructions/include.cpp
+++ b/src/lib/sup/oac-tree/instructions/include.cpp
@@ -71,6 +71,7 @@ void Include::SetupImpl(const Procedure& proc)
   }
   (void)InsertInstruction(std::move(clone), 0);
   auto& sub_proc = proc_context.GetProcedure(proc_filename);
+  InstructionHelper::IncludeSetupGuard guard{*this, proc_filename};
   SetupChild(sub_proc);
 }
 
diff --git a/src/lib/sup/oac-tree/instructions/include_procedure.cpp b/src/lib/sup/oac-tree/instructions/include_procedure.cpp
index 4b50bf4..0a332c5 100644
--- a/src/lib/sup/oac-tree/instructions/include_procedure.cpp
+++ b/src/lib/sup/oac-tree/instructions/include_procedure.cpp
@@ -70,6 +70,7 @@ void IncludeProcedure::SetupImpl(const Procedure& proc)
   m_workspace = std::addressof(proc_context.GetWorkspace(proc_filename));
   m_workspace->Setup();
   auto& sub_proc = proc_context.GetProcedure(proc_filename);
+  InstructionHelper::IncludeSetupGuard guard{*this, proc_filename};
   SetupChild(sub_proc);
 }
 
diff --git a/src/lib/sup/oac-tree/instructions/instruction_helper.cpp b/src/lib/sup/oac-tree/instructions/instruction_helper.cpp
index 2ee8a88..2f6ac74 100644
--- a/src/lib/sup/oac-tree/instructions/instruction_helper.cpp
+++ b/src/lib/sup/oac-tree/instructions/instruction_helper.cpp
@@ -26,6 +26,7 @@
 #include <sup/oac-tree/decorator_instruction.h>
 
 #include <sup/oac-tree/constants.h>
+#include <sup/oac-tree/exceptions.h>
 #include <sup/oac-tree/instruction_registry.h>
 
 #include <algorithm>
@@ -37,6 +38,9 @@ bool CloneChildInstructions(sup::oac_tree::Instruction& clone,
                             const sup::oac_tree::Instruction* source);
 bool AddClonedChildInstruction(sup::oac_tree::Instruction& instr,
                                const sup::oac_tree::Instruction* child);
+// Filename and attributes of the includes that are currently being set up by this thread
+using IncludeStack = std::vector<std::pair<std::string, sup::oac_tree::StringAttributeList>>;
+IncludeStack& GetIncludeStack();
 }  // Unnamed namespace
 
 namespace sup
@@ -133,6 +137,24 @@ bool AttributeStartsWith(const std::string& attr_str, char c)
   return attr_str[0] == c;
 }
 
+IncludeSetupGuard::IncludeSetupGuard(const Instruction& include, const std::string& filename)
+{
+  auto& stack = GetIncludeStack();
+  IncludeStack::value_type entry{filename, include.GetStringAttributes()};
+  if (std::find(stack.begin(), stack.end(), entry) != stack.end())
+  {
+    const std::string error_message = InstructionSetupExceptionProlog(include) +
+      "instruction includes itself";
+    throw InstructionSetupException(error_message);
+  }
+  stack.push_back(std::move(entry));
+}
+
+IncludeSetupGuard::~IncludeSetupGuard()
+{
+  GetIncludeStack().pop_back();
+}
+
 }  // namespace InstructionHelper
 
 }  // namespace oac_tree
@@ -177,4 +199,10 @@ bool AddClonedChildInstruction(Instruction& instr, const Instruction* child)
   return AppendChildInstruction(instr, std::move(cloned_child));
 }
 
+IncludeStack& GetIncludeStack()
+{
+  thread_local IncludeStack stack;
+  return stack;
+}
+
 }  // Unnamed namespace
diff --git a/src/lib/sup/oac-tree/instructions/instruction_helper.h b/src/lib/sup/oac-tree/instructions/instruction_helper.h
index b325cd4..151bef9 100644
--- a/src/lib/sup/oac-tree/instructions/instruction_helper.h
+++ b/src/lib/sup/oac-tree/instructions/instruction_helper.h
@@ -83,6 +83,29 @@ bool InitialisePlaceholderAttributes(AttributeHandler& attribute_handler,
  */
 bool AttributeStartsWith(const std::string& attr_str, char c);
 
+/**
+ * @brief Marks an including instruction as being set up during the lifetime of this object, to
+ * prevent instructions from including themselves without end.
+ */
+class IncludeSetupGuard
+{
+public:
+  /**
+   * @brief Constructor.
+   *
+   * @param include Instruction that includes another one.
+   * @param filename File name of the procedure that contains the included instruction.
+   *
+   * @throw InstructionSetupException when this is called during the setup of an instruction that
+   * includes the same one with the same attributes.
+   */
+  IncludeSetupGuard(const Instruction& include, const std::string& filename);
+  ~IncludeSetupGuard();
+
+  IncludeSetupGuard(const IncludeSetupGuard&) = delete;
+  IncludeSetupGuard& operator=(const IncludeSetupGuard&) = delete;
+};
+
 }  // namespace InstructionHelper
 
 }  // namespace oac_tree
-- 
2.43.0


From ead476d3d9bb159c695550b96aba37539d66c885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 18/31] fix: a reply wakes up everyone who waits for a reply

All futures of an AsyncInputAdapter wait on the same condition variable, so
waking up only one of them could miss the one whose reply arrived.
---
 src/lib/sup/oac-tree/base/async_input_adapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/base/async_input_adapter.cpp b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
index b3f5d70..83af71f 100644
--- a/src/lib/sup/oac-tree/base/async_input_adapter.cpp
+++ b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
@@ -102,7 +102,7 @@ void AsyncInputAdapter::HandleRequestQueue()
     if (m_current_id == id)
     {
       m_replies[m_current_id] = reply;
-      m_reply_cv.notify_one();
+      m_reply_cv.notify_all();
     }
     m_current_id = 0;
   }
-- 
2.43.0


From 6916e22c8e9e2955151c616eed445005710466da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:51 +0000
Subject: [PATCH 19/31] fix: the command line reads integers of eight bits as
 numbers

---
 src/app/oac-tree-cli/cl_interface.cpp | 30 +++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/app/oac-tree-cli/cl_interface.cpp b/src/app/oac-tree-cli/cl_interface.cpp
index 8729d48..f2f32c3 100644
--- a/src/app/oac-tree-cli/cl_interface.cpp
+++ b/src/app/oac-tree-cli/cl_interface.cpp
@@ -30,6 +30,7 @@
 
 #include <cstring>
 #include <iostream>
+#include <limits>
 #include <map>
 #include <sstream>
 
@@ -253,6 +254,35 @@ bool ParserFunctionT<sup::dto::boolean>(sup::dto::AnyValue &value, const std::st
   return true;
 }
 
+/**
+ * Integers of eight bits are character types in C++, but the user provides them as numbers.
+ */
+template <typename T>
+bool ParseSmallInteger(sup::dto::AnyValue &value, const std::string &str)
+{
+  std::istringstream istr(str);
+  int val;
+  istr >> val;
+  if (istr.fail() || val < std::numeric_limits<T>::min() || val > std::numeric_limits<T>::max())
+  {
+    return false;
+  }
+  value = static_cast<T>(val);
+  return true;
+}
+
+template <>
+bool ParserFunctionT<sup::dto::int8>(sup::dto::AnyValue &value, const std::string &str)
+{
+  return ParseSmallInteger<sup::dto::int8>(value, str);
+}
+
+template <>
+bool ParserFunctionT<sup::dto::uint8>(sup::dto::AnyValue &value, const std::string &str)
+{
+  return ParseSmallInteger<sup::dto::uint8>(value, str);
+}
+
 template <>
 bool ParserFunctionT<std::string>(sup::dto::AnyValue &value, const std::string &str)
 {
-- 
2.43.0


From bf7aae05c1faf32221673ce8287138327a802d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:51 +0000
Subject: [PATCH 20/31] fix: the command line reads 64-bit signed integers

---
 src/app/oac-tree-cli/cl_interface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/app/oac-tree-cli/cl_interface.cpp b/src/app/oac-tree-cli/cl_interface.cpp
index f2f32c3..017d96d 100644
--- a/src/app/oac-tree-cli/cl_interface.cpp
+++ b/src/app/oac-tree-cli/cl_interface.cpp
@@ -301,6 +301,7 @@ static std::map<std::string, ParseFunction> CreateParserMap()
   parser_map["uint16"] = ParserFunctionT<sup::dto::uint16>;
   parser_map["int32"] = ParserFunctionT<sup::dto::int32>;
   parser_map["uint32"] = ParserFunctionT<sup::dto::uint32>;
+  parser_map["int64"] = ParserFunctionT<sup::dto::int64>;
   parser_map["uint64"] = ParserFunctionT<sup::dto::uint64>;
   parser_map["float32"] = ParserFunctionT<sup::dto::float32>;
   parser_map["float64"] = ParserFunctionT<sup::dto::float64>;
-- 
2.43.0


From fddfcf65c6ab2181cbf1d1dd3be1ee20bbe710a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:44 +0000
Subject: [PATCH 21/31] fix: any number is accepted as an answer that selects
 no option

---
 src/app/oac-tree-cli/cl_interface.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/app/oac-tree-cli/cl_interface.cpp b/src/app/oac-tree-cli/cl_interface.cpp
index 017d96d..229d7bb 100644
--- a/src/app/oac-tree-cli/cl_interface.cpp
+++ b/src/app/oac-tree-cli/cl_interface.cpp
@@ -202,18 +202,18 @@ int CLInterface::GetUserChoice(const std::vector<std::string>& options,
     m_logger.LogMessage(log::SUP_SEQ_LOG_ERR, error_message);
     return -1;
   }
-  // Decrement input as the interface uses 1-based indexing
-  --input;
-  if (input < 0 || input >= options.size())
+  // The interface uses 1-based indexing
+  if (input < 1 || input > options.size())
   {
     std::string error_message =
       "CLInterface::GetUserChoice(): user provided value [" +
-      std::to_string(input + 1) + "] must be in the range [1, " + std::to_string(options.size()) + "]";
+      std::to_string(input) + "] must be in the range [1, " + std::to_string(options.size()) + "]";
     m_logger.LogMessage(log::SUP_SEQ_LOG_ERR, error_message);
     return -1;
   }
-  std::cout << options[input] << " selected" << std::endl;
-  return input;
+  const int choice = input - 1;
+  std::cout << options[choice] << " selected" << std::endl;
+  return choice;
 }
 
 }  // namespace oac_tree
-- 
2.43.0


From c0cc67b8815a8bf6eeaa3d69e8abaed2d4392920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 22/31] fix: a state change wakes up everyone who waits for a
 state

---
 src/lib/sup/oac-tree/base/application_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/base/application_utils.cpp b/src/lib/sup/oac-tree/base/application_utils.cpp
index ed5c08a..31ea5e6 100644
--- a/src/lib/sup/oac-tree/base/application_utils.cpp
+++ b/src/lib/sup/oac-tree/base/application_utils.cpp
@@ -91,7 +91,7 @@ void SimpleJobStateMonitor::OnStateChange(JobState state) noexcept
     std::lock_guard<std::mutex> lk{m_mtx};
     m_state = state;
   }
-  m_cv.notify_one();
+  m_cv.notify_all();
 }
 
 void SimpleJobStateMonitor::OnBreakpointChange(const Instruction* instruction,
-- 
2.43.0


From 58b6faa267603407b18fe0cd9e616e66e4aab62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 23/31] fix: reports about an instruction from several threads
 do not overtake each other

---
 src/lib/sup/oac-tree/job_interface_adapter.h          | 4 ++++
 src/lib/sup/oac-tree/runner/job_interface_adapter.cpp | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/lib/sup/oac-tree/job_interface_adapter.h b/src/lib/sup/oac-tree/job_interface_adapter.h
index 1444aa7..c4a5c6c 100644
--- a/src/lib/sup/oac-tree/job_interface_adapter.h
+++ b/src/lib/sup/oac-tree/job_interface_adapter.h
@@ -29,6 +29,7 @@
 #include <sup/oac-tree/job_interface.h>
 #include <sup/oac-tree/job_map.h>
 
+#include <mutex>
 #include <vector>
 
 namespace sup
@@ -65,6 +66,9 @@ public:
 private:
   JobMap m_job_map;
   std::vector<InstructionState> m_instr_states;
+  // Instruction states are updated by the threads that execute instructions and by those that set or
+  // remove breakpoints. It also protects the order in which these updates are forwarded.
+  std::recursive_mutex m_instr_states_mtx;
   IJobInfoIO& m_job_info_io;
   AsyncInputAdapter m_input_adapter;
 };
diff --git a/src/lib/sup/oac-tree/runner/job_interface_adapter.cpp b/src/lib/sup/oac-tree/runner/job_interface_adapter.cpp
index 47bf8db..2a4e457 100644
--- a/src/lib/sup/oac-tree/runner/job_interface_adapter.cpp
+++ b/src/lib/sup/oac-tree/runner/job_interface_adapter.cpp
@@ -42,6 +42,7 @@ using namespace std::placeholders;
 JobInterfaceAdapter::JobInterfaceAdapter(const Procedure& proc, IJobInfoIO& job_info_io)
   : m_job_map{proc}
   , m_instr_states{}
+  , m_instr_states_mtx{}
   , m_job_info_io{job_info_io}
   , m_input_adapter{std::bind(&ForwardUserInput, std::ref(m_job_info_io), _1, _2),
                     std::bind(&ForwardInterrupt, std::ref(m_job_info_io), _1)}
@@ -71,6 +72,7 @@ std::vector<const Instruction*> JobInterfaceAdapter::GetOrderedInstructions() co
 void JobInterfaceAdapter::UpdateInstructionStatus(const Instruction* instruction)
 {
   auto instr_idx = m_job_map.GetInstructionIndex(instruction);
+  std::lock_guard<std::recursive_mutex> lk{m_instr_states_mtx};
   auto status = instruction->GetStatus();
   auto& instr_state = m_instr_states[instr_idx];
   instr_state.m_execution_status = status;
@@ -115,6 +117,7 @@ void JobInterfaceAdapter::OnBreakpointChange(const Instruction* instruction,
                                              bool breakpoint_set) noexcept
 {
   auto instr_idx = m_job_map.GetInstructionIndex(instruction);
+  std::lock_guard<std::recursive_mutex> lk{m_instr_states_mtx};
   auto& instr_state = m_instr_states[instr_idx];
   instr_state.m_breakpoint_set = breakpoint_set;
   m_job_info_io.InstructionStateUpdated(instr_idx, instr_state);
-- 
2.43.0


From fd4b6409a09cffbebc61c61a00aa6454f1a20e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 24/31] fix: a moved instruction tree no longer shares its
 nodes with the original

---
 src/lib/sup/oac-tree/instruction_tree.h       |  6 ++++-
 .../instructions/instruction_tree.cpp         | 26 +++++++++++--------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/lib/sup/oac-tree/instruction_tree.h b/src/lib/sup/oac-tree/instruction_tree.h
index 4d00f50..55d08bf 100644
--- a/src/lib/sup/oac-tree/instruction_tree.h
+++ b/src/lib/sup/oac-tree/instruction_tree.h
@@ -23,6 +23,7 @@
 #ifndef SUP_OAC_TREE_INSTRUCTION_TREE_H_
 #define SUP_OAC_TREE_INSTRUCTION_TREE_H_
 
+#include <memory>
 #include <vector>
 
 namespace sup
@@ -42,6 +43,9 @@ public:
 
   ~InstructionTree();
 
+  InstructionTree(InstructionTree&& other) noexcept;
+  InstructionTree& operator=(InstructionTree&& other) & noexcept;
+
   bool IsEmpty() const;
 
   const Instruction* GetInstruction() const;
@@ -54,7 +58,7 @@ public:
 
 private:
   const Instruction* m_instruction;
-  std::vector<InstructionTree*> m_children;
+  std::vector<std::unique_ptr<InstructionTree>> m_children;
 };
 
 /**
diff --git a/src/lib/sup/oac-tree/instructions/instruction_tree.cpp b/src/lib/sup/oac-tree/instructions/instruction_tree.cpp
index dd167a6..987ba67 100644
--- a/src/lib/sup/oac-tree/instructions/instruction_tree.cpp
+++ b/src/lib/sup/oac-tree/instructions/instruction_tree.cpp
@@ -28,6 +28,7 @@
 #include <algorithm>
 #include <deque>
 #include <functional>
+#include <iterator>
 
 namespace sup
 {
@@ -41,13 +42,11 @@ InstructionTree::InstructionTree(const Instruction* instruction)
   : m_instruction{instruction}
 {}
 
-InstructionTree::~InstructionTree()
-{
-  for (auto tree : m_children)
-  {
-    delete tree;
-  }
-}
+InstructionTree::~InstructionTree() = default;
+
+InstructionTree::InstructionTree(InstructionTree&& other) noexcept = default;
+
+InstructionTree& InstructionTree::operator=(InstructionTree&& other) & noexcept = default;
 
 bool InstructionTree::IsEmpty() const
 {
@@ -61,14 +60,14 @@ const Instruction* InstructionTree::GetInstruction() const
 
 InstructionTree* InstructionTree::AddChildInstruction(const Instruction* instruction)
 {
-  m_children.push_back(new InstructionTree{instruction});
-  return m_children.back();
+  m_children.push_back(std::make_unique<InstructionTree>(instruction));
+  return m_children.back().get();
 }
 
 std::vector<const Instruction*> InstructionTree::GetChildInstructions() const
 {
   std::vector<const Instruction*> result;
-  auto op = [](InstructionTree* tree) {
+  auto op = [](const std::unique_ptr<InstructionTree>& tree) {
     return tree->GetInstruction();
   };
   std::transform(m_children.begin(), m_children.end(), std::back_inserter(result), op);
@@ -77,7 +76,12 @@ std::vector<const Instruction*> InstructionTree::GetChildInstructions() const
 
 std::vector<InstructionTree*> InstructionTree::GetChildren() const
 {
-  return m_children;
+  std::vector<InstructionTree*> result;
+  auto op = [](const std::unique_ptr<InstructionTree>& tree) {
+    return tree.get();
+  };
+  std::transform(m_children.begin(), m_children.end(), std::back_inserter(result), op);
+  return result;
 }
 
 InstructionTree CreateFullInstructionTree(const Instruction* root)
-- 
2.43.0


From b08b83e734521384747946fda4ec4d9df3089151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 25/31] fix: assigning to an attribute definition that was
 moved from

---
 src/lib/sup/oac-tree/attributes/attribute_definition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/attributes/attribute_definition.cpp b/src/lib/sup/oac-tree/attributes/attribute_definition.cpp
index a950833..696c6a5 100644
--- a/src/lib/sup/oac-tree/attributes/attribute_definition.cpp
+++ b/src/lib/sup/oac-tree/attributes/attribute_definition.cpp
@@ -46,7 +46,7 @@ AttributeDefinition::AttributeDefinition(AttributeDefinition&& other) noexcept =
 AttributeDefinition& AttributeDefinition::operator=(const AttributeDefinition& other) &
 {
   m_name = other.m_name;
-  *m_properties = *other.m_properties;
+  m_properties = std::make_unique<AttributeProperties>(*other.m_properties);
   return *this;
 }
 
-- 
2.43.0


From 83714470dd132f2d7bbc47ac3a69d3a06862acc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 26/31] fix: creating a directory tells whether the directory
 is there

---
 src/lib/sup/oac-tree/base/generic_utils.cpp | 43 ++++++++++++---------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/lib/sup/oac-tree/base/generic_utils.cpp b/src/lib/sup/oac-tree/base/generic_utils.cpp
index 2ab0d1f..d3634c5 100644
--- a/src/lib/sup/oac-tree/base/generic_utils.cpp
+++ b/src/lib/sup/oac-tree/base/generic_utils.cpp
@@ -28,6 +28,7 @@
 #include <sup/dto/anyvalue.h>
 #include <sup/dto/json_value_parser.h>
 
+#include <cerrno>
 #include <chrono>
 #include <cstdlib>
 #include <dlfcn.h>
@@ -49,6 +50,8 @@ public:
 private:
   std::ifstream m_file_stream;
 };
+
+bool IsDirectory(const std::string& pathname);
 }
 
 namespace sup
@@ -93,29 +96,25 @@ bool CreateDir(const std::string& pathname, unsigned mode)
   {
     return false;
   }
-  if (::mkdir(pathname.c_str(), mode) == -1)
+  if (::mkdir(pathname.c_str(), mode) == 0)
   {
-    switch (errno)
-    {
-      case ENOENT:
-        // parent folder doesn't exist, so try to create it
-        if (CreateDir(pathname.substr(0, pathname.find_last_of('/'))))
-        {
-          return ::mkdir(pathname.c_str(), mode) == 0;
-        }
-        break;
-      case EEXIST:
-        // the folder already exists, so success
-        return true;
-      default:
-        return false;
-    }
+    return true;
   }
-  else
+  if (errno == ENOENT)
   {
-    return true;
+    // parent folder doesn't exist, so try to create it
+    auto pos = pathname.find_last_of('/');
+    if (pos == std::string::npos || !CreateDir(pathname.substr(0, pos)))
+    {
+      return false;
+    }
+    if (::mkdir(pathname.c_str(), mode) == 0)
+    {
+      return true;
+    }
   }
-  return false;
+  // success if the folder already exists
+  return errno == EEXIST && IsDirectory(pathname);
 }
 
 std::string GetEnvironmentVariable(const std::string& varname)
@@ -150,4 +149,10 @@ bool ReadFileHandle::IsValid() const
 {
   return m_file_stream.is_open();
 }
+
+bool IsDirectory(const std::string& pathname)
+{
+  struct stat info;
+  return ::stat(pathname.c_str(), &info) == 0 && S_ISDIR(info.st_mode);
+}
 }  // unnamed namespace
-- 
2.43.0


From ad212e65c390658c23537a66db33e03a5656980b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:05 +0000
Subject: [PATCH 27/31] fix: the command line refuses a negative number for an
 unsigned integer

---
 src/app/oac-tree-cli/cl_interface.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/app/oac-tree-cli/cl_interface.cpp b/src/app/oac-tree-cli/cl_interface.cpp
index 229d7bb..00a55f1 100644
--- a/src/app/oac-tree-cli/cl_interface.cpp
+++ b/src/app/oac-tree-cli/cl_interface.cpp
@@ -33,6 +33,7 @@
 #include <limits>
 #include <map>
 #include <sstream>
+#include <type_traits>
 
 static bool ParseStringToScalarAnyvalue(sup::dto::AnyValue &value, const std::string &str);
 
@@ -225,6 +226,11 @@ using ParseFunction = bool (*)(sup::dto::AnyValue &, const std::string &);
 template <typename T>
 bool ParserFunctionT(sup::dto::AnyValue &value, const std::string &str)
 {
+  // Streams read a negative number into an unsigned integer by adding its range
+  if (std::is_unsigned<T>::value && str.find('-') != std::string::npos)
+  {
+    return false;
+  }
   std::istringstream istr(str);
   T val;
   istr >> val;
-- 
2.43.0


From cf02ce2fb220f9ba900ac23625c5156290a82ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 28/31] fix: Procedure::InsertInstruction refuses an empty
 pointer

---
 src/lib/sup/oac-tree/procedure/procedure.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/procedure/procedure.cpp b/src/lib/sup/oac-tree/procedure/procedure.cpp
index 7ff33a9..58c9456 100644
--- a/src/lib/sup/oac-tree/procedure/procedure.cpp
+++ b/src/lib/sup/oac-tree/procedure/procedure.cpp
@@ -144,7 +144,7 @@ void Procedure::PushInstruction(std::unique_ptr<Instruction>&& instruction)
 
 bool Procedure::InsertInstruction(std::unique_ptr<Instruction>&& instruction, int index)
 {
-  if (index < 0 || index > m_instructions.size())
+  if (!instruction || index < 0 || index > m_instructions.size())
   {
     return false;
   }
-- 
2.43.0


From 456a59a76a952854b8eb0b57d1e0c5700a934ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:11 +0000
Subject: [PATCH 29/31] fix: waiting for a job state with a very large timeout
 does not give up at once

---
 src/lib/sup/oac-tree/base/application_utils.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/base/application_utils.cpp b/src/lib/sup/oac-tree/base/application_utils.cpp
index 31ea5e6..cc9e348 100644
--- a/src/lib/sup/oac-tree/base/application_utils.cpp
+++ b/src/lib/sup/oac-tree/base/application_utils.cpp
@@ -25,12 +25,18 @@
 #include <sup/oac-tree/generic_utils.h>
 #include <sup/oac-tree/sequence_parser.h>
 
+#include <algorithm>
 #include <chrono>
 
 namespace sup
 {
 namespace oac_tree
 {
+namespace
+{
+// Longest time to wait (about 31 years): longer ones cannot be represented by the clocks used.
+const double kMaxWaitSeconds = 1e9;
+}  // unnamed namespace
 
 namespace utils
 {
@@ -126,7 +132,7 @@ JobState SimpleJobStateMonitor::WaitForFinished() const
 
 bool SimpleJobStateMonitor::WaitForState(JobState state, double seconds) const
 {
-  auto duration = std::chrono::duration<double>(seconds);
+  auto duration = std::chrono::duration<double>(std::min(seconds, kMaxWaitSeconds));
   std::unique_lock<std::mutex> lk{m_mtx};
   return m_cv.wait_for(lk, duration, [this, state](){
     return m_state == state;
-- 
2.43.0


From 860e4c8149dc09cfd397a369f9f5fb8853ab0c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:11 +0000
Subject: [PATCH 30/31] fix: waiting for a user reply with a very large timeout
 does not give up at once

---
 src/lib/sup/oac-tree/base/async_input_adapter.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/base/async_input_adapter.cpp b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
index 83af71f..eec29f3 100644
--- a/src/lib/sup/oac-tree/base/async_input_adapter.cpp
+++ b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
@@ -32,6 +32,11 @@ namespace sup
 {
 namespace oac_tree
 {
+namespace
+{
+// Longest time to wait (about 31 years): longer ones cannot be represented by the clocks used.
+const double kMaxWaitSeconds = 1e9;
+}  // unnamed namespace
 
 AsyncInputAdapter::AsyncInputAdapter(InputFunction input_func, InterruptFunction interrupt_func)
   : m_input_func{std::move(input_func)}
@@ -131,7 +136,7 @@ bool AsyncInputAdapter::WaitForRequestReady(const Future& token, double seconds)
   {
     return false;
   }
-  auto duration = std::chrono::duration<double>(seconds);
+  auto duration = std::chrono::duration<double>(std::min(seconds, kMaxWaitSeconds));
   auto id = token.GetId();
   auto pred = [this, id]() {
     return m_replies.find(id) != m_replies.end();
-- 
2.43.0


From f95de65088d7e3c95de0cd3271210dbed0824237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:12 +0000
Subject: [PATCH 31/31] fix: waiting for a variable with a very large timeout
 does not spin

---
 src/lib/sup/oac-tree/procedure/workspace.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/procedure/workspace.cpp b/src/lib/sup/oac-tree/procedure/workspace.cpp
index a01b950..7b4d10a 100644
--- a/src/lib/sup/oac-tree/procedure/workspace.cpp
+++ b/src/lib/sup/oac-tree/procedure/workspace.cpp
@@ -37,6 +37,12 @@ namespace sup
 {
 namespace oac_tree
 {
+namespace
+{
+// Longest time to wait (about 31 years): longer ones cannot be represented by the clocks used.
+const double kMaxWaitSeconds = 1e9;
+}  // unnamed namespace
+
 Workspace::Workspace(const std::string& filename)
    : m_filename{filename}
    , m_var_map{}
@@ -161,7 +167,7 @@ bool Workspace::WaitForVariable(const std::string& name, double timeout_sec, boo
   {
     return false;
   }
-  auto timeout_duration = std::chrono::duration<double>(timeout_sec);
+  auto timeout_duration = std::chrono::duration<double>(std::min(timeout_sec, kMaxWaitSeconds));
   int dummy_listener; // to get a unique address
   std::mutex mx;
   bool updated = false;
-- 
2.43.0

