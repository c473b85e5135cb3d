From 04a3e2377621c22636464a6cce726fd0e5ae4e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:46 +0000
Subject: [PATCH 1/8] fix: pass a halt of UserChoice on to its children

---
 src/lib/sup/oac-tree/instructions/user_choice.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/sup/oac-tree/instructions/user_choice.cpp b/src/lib/sup/oac-tree/instructions/user_choice.cpp
index 69a569e..b6a41c1 100644
--- a/src/lib/sup/oac-tree/instructions/user_choice.cpp
+++ b/src/lib/sup/oac-tree/instructions/user_choice.cpp
@@ -110,6 +110,7 @@ void UserChoice::ResetHook(UserInterface& ui)
 void UserChoice::HaltImpl()
 {
   m_future.reset();
+  HaltChildren();
 }
 
 std::vector<const Instruction*> UserChoice::NextInstructionsImpl() const
-- 
2.43.0


From 49d17ac066b34fca4230d4c503041bbeabb4a154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:24 +0000
Subject: [PATCH 2/8] fix: forget the breakpoints of an earlier run when a new
 run starts

Runner::ExecuteProcedure kept the instructions of the last breakpoint stop when a
later run never consulted the breakpoints (root still running or already finished),
so a run that ended for another reason was reported as stopped by a breakpoint and
the job was switched from a finished state back to paused.
---
 src/lib/sup/oac-tree/runner/runner.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/sup/oac-tree/runner/runner.cpp b/src/lib/sup/oac-tree/runner/runner.cpp
index 70abdd8..43f9b82 100644
--- a/src/lib/sup/oac-tree/runner/runner.cpp
+++ b/src/lib/sup/oac-tree/runner/runner.cpp
@@ -88,6 +88,7 @@ std::vector<Breakpoint> Runner::GetBreakpoints() const
 void Runner::ExecuteProcedure()
 {
   m_halt.store(false);
+  m_current_breakpoint_instructions.clear();
   if (!m_proc)
   {
     return;
-- 
2.43.0


From 078ae03e00c6db6579a12b3ceb8fd880b43f0df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:53 +0000
Subject: [PATCH 3/8] fix: copying an empty constraint gives an empty
 constraint

---
 src/lib/sup/oac-tree/attributes/constraint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/attributes/constraint.cpp b/src/lib/sup/oac-tree/attributes/constraint.cpp
index 5436e16..f936223 100644
--- a/src/lib/sup/oac-tree/attributes/constraint.cpp
+++ b/src/lib/sup/oac-tree/attributes/constraint.cpp
@@ -31,7 +31,7 @@ IConstraint::~IConstraint() = default;
 Constraint::~Constraint() = default;
 
 Constraint::Constraint(const Constraint& other)
-  : m_impl{other.m_impl->Clone()}
+  : m_impl{other.m_impl ? other.m_impl->Clone() : nullptr}
 {}
 
 Constraint::Constraint(Constraint&& other)
-- 
2.43.0


From 65d8860ac7d406375c6a01dfe8f2032fa99aa4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:58 +0000
Subject: [PATCH 4/8] fix: set up and tear down a variable under its access
 lock

Setup and Teardown wrote m_setup_successful and let the concrete variable
replace its value without holding m_access_mutex, so resetting a variable
while another branch reads or writes it was a data race.
---
 src/lib/sup/oac-tree/variable.h             | 5 +++--
 src/lib/sup/oac-tree/variables/variable.cpp | 8 +++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/lib/sup/oac-tree/variable.h b/src/lib/sup/oac-tree/variable.h
index ab64996..4b95c7f 100644
--- a/src/lib/sup/oac-tree/variable.h
+++ b/src/lib/sup/oac-tree/variable.h
@@ -273,9 +273,10 @@ private:
   /**
    * @brief Mutex for concurrent access of Variable.
    * @details This mutex protects access to all other private member data, unless explicitly
-   * mentioned otherwise.
+   * mentioned otherwise. It is recursive, so that the setup and teardown of a concrete variable can
+   * still access its own value.
    */
-  mutable std::mutex m_access_mutex;
+  mutable std::recursive_mutex m_access_mutex;
 
   /**
    * @brief Mutex for concurrent access of the update counter.
diff --git a/src/lib/sup/oac-tree/variables/variable.cpp b/src/lib/sup/oac-tree/variables/variable.cpp
index 7b32f8c..134d52e 100644
--- a/src/lib/sup/oac-tree/variables/variable.cpp
+++ b/src/lib/sup/oac-tree/variables/variable.cpp
@@ -76,6 +76,7 @@ void Variable::SetName(const std::string &name)
 
 SetupTeardownActions Variable::Setup(const Workspace& ws)
 {
+  std::lock_guard<std::recursive_mutex> lk(m_access_mutex);
   if (!m_attribute_handler.ValidateAttributes())
   {
     auto error_message =
@@ -94,7 +95,7 @@ void Variable::Reset(const Workspace& ws)
 
 bool Variable::GetValue(sup::dto::AnyValue& value, const std::string& fieldname) const
 {
-  std::lock_guard<std::mutex> lock(m_access_mutex);
+  std::lock_guard<std::recursive_mutex> lock(m_access_mutex);
   if (!m_setup_successful)
   {
     return false;
@@ -114,7 +115,7 @@ bool Variable::GetValue(sup::dto::AnyValue& value, const std::string& fieldname)
 
 bool Variable::SetValue(const sup::dto::AnyValue& value, const std::string& fieldname)
 {
-  std::lock_guard<std::mutex> lk(m_access_mutex);
+  std::lock_guard<std::recursive_mutex> lk(m_access_mutex);
   if (!m_setup_successful)
   {
     return false;
@@ -141,7 +142,7 @@ bool Variable::SetValue(const sup::dto::AnyValue& value, const std::string& fiel
 
 bool Variable::IsAvailable() const
 {
-  std::lock_guard<std::mutex> lk(m_access_mutex);
+  std::lock_guard<std::recursive_mutex> lk(m_access_mutex);
   if (!m_setup_successful)
   {
     return false;
@@ -166,6 +167,7 @@ void Variable::SetNotifyCallback(Callback func)
 
 void Variable::Teardown()
 {
+  std::lock_guard<std::recursive_mutex> lk(m_access_mutex);
   TeardownImpl();
   m_attribute_handler.ClearFailedConstraints();
   m_setup_successful = false;
-- 
2.43.0


From a8903e039da8eab8a3a5fec70a1817fc5423a4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 5/8] fix: refuse a timeout that is not a number

ConvertToTimeoutNanoseconds compared with < and >, which are both false for NaN,
and passed NaN on to std::lround, whose result is then unspecified.
---
 src/lib/sup/oac-tree/instructions/instruction_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/instructions/instruction_utils.cpp b/src/lib/sup/oac-tree/instructions/instruction_utils.cpp
index 3e9e829..b9600e9 100644
--- a/src/lib/sup/oac-tree/instructions/instruction_utils.cpp
+++ b/src/lib/sup/oac-tree/instructions/instruction_utils.cpp
@@ -37,7 +37,7 @@ namespace instruction_utils
 
 bool ConvertToTimeoutNanoseconds(sup::dto::float64 timeout_sec, sup::dto::int64& timeout_ns)
 {
-  if (timeout_sec < 0.0 || timeout_sec > kMaxTimeoutSeconds)
+  if (!(timeout_sec >= 0.0 && timeout_sec <= kMaxTimeoutSeconds))
   {
     return false;
   }
-- 
2.43.0


From 9697498ea570498b72549b1140fb7bfcc2de65f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 6/8] fix: wake every thread that waits for a user input reply

Threads waiting for different requests share one condition variable. With
notify_one the reply could wake a thread waiting for another request, which went
back to sleep, while the thread it was meant for slept until its timeout.
---
 src/lib/sup/oac-tree/base/async_input_adapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/base/async_input_adapter.cpp b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
index aa4a0bc..74aa2be 100644
--- a/src/lib/sup/oac-tree/base/async_input_adapter.cpp
+++ b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
@@ -100,7 +100,7 @@ void AsyncInputAdapter::HandleRequestQueue()
     if (m_current_id == id)
     {
       m_replies[m_current_id] = reply;
-      m_reply_cv.notify_one();
+      m_reply_cv.notify_all();
     }
     m_current_id = 0;
   }
-- 
2.43.0


From d8266ac4d2e934a0747648a827896d2dfb90a007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 7/8] fix: end the user input handler before destroying its
 mutex

m_handler_future is declared before the mutex and the condition variables, so
these were destroyed while the handler thread could still be using them.
---
 src/lib/sup/oac-tree/base/async_input_adapter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/sup/oac-tree/base/async_input_adapter.cpp b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
index 74aa2be..a3cc088 100644
--- a/src/lib/sup/oac-tree/base/async_input_adapter.cpp
+++ b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
@@ -60,6 +60,8 @@ AsyncInputAdapter::~AsyncInputAdapter()
     m_halt = true;
   }
   m_cv.notify_one();
+  // The handler still uses the members that are destroyed before its future:
+  m_handler_future.wait();
 }
 
 std::unique_ptr<IUserInputFuture> AsyncInputAdapter::AddUserInputRequest(
-- 
2.43.0


From 081db6992ad61e220a681685b7c2898de91ab83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:16 +0000
Subject: [PATCH 8/8] fix: halting an instruction that waits for user input
 raced with polling its future

Halt comes from another thread than the one that ticks the instruction; it
destroyed the future of Input, UserChoice and UserConfirmation while that
thread could be using it.
---
 src/lib/sup/oac-tree/instructions/input.cpp   | 21 ++++++++++++++++---
 src/lib/sup/oac-tree/instructions/input.h     |  3 +++
 .../sup/oac-tree/instructions/user_choice.cpp | 21 ++++++++++++++++---
 .../sup/oac-tree/instructions/user_choice.h   |  4 ++++
 .../instructions/user_confirmation.cpp        | 21 ++++++++++++++++---
 .../oac-tree/instructions/user_confirmation.h |  5 +++++
 6 files changed, 66 insertions(+), 9 deletions(-)

diff --git a/src/lib/sup/oac-tree/instructions/input.cpp b/src/lib/sup/oac-tree/instructions/input.cpp
index 6c145c3..6029003 100644
--- a/src/lib/sup/oac-tree/instructions/input.cpp
+++ b/src/lib/sup/oac-tree/instructions/input.cpp
@@ -38,6 +38,7 @@ const std::string Input::Type = "Input";
 Input::Input()
   : Instruction(Input::Type)
   , m_future{}
+  , m_future_mutex{}
 {
   AddAttributeDefinition(Constants::OUTPUT_VARIABLE_NAME_ATTRIBUTE_NAME)
     .SetCategory(AttributeCategory::kVariableName).SetMandatory();
@@ -59,7 +60,9 @@ bool Input::InitHook(UserInterface& ui, Workspace& ws)
   {
     return false;
   }
-  m_future = CreateUserValueFuture(ui, *this, value, description);
+  auto future = CreateUserValueFuture(ui, *this, value, description);
+  std::lock_guard<std::mutex> lk{m_future_mutex};
+  m_future = std::move(future);
   if (!m_future)
   {
     return false;
@@ -69,7 +72,7 @@ bool Input::InitHook(UserInterface& ui, Workspace& ws)
 
 ExecutionStatus Input::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
 {
-  if (IsHaltRequested() || !m_future)
+  if (IsHaltRequested())
   {
     return ExecutionStatus::FAILURE;
   }
@@ -83,16 +86,28 @@ void Input::ResetHook(UserInterface& ui)
 
 void Input::HaltImpl()
 {
-  m_future.reset();
+  std::unique_ptr<IUserInputFuture> future;
+  {
+    std::lock_guard<std::mutex> lk{m_future_mutex};
+    std::swap(future, m_future);
+  }
+  // The request is cancelled outside of the lock.
+  future.reset();
 }
 
 ExecutionStatus Input::PollInputFuture(UserInterface& ui, Workspace& ws)
 {
+  std::unique_lock<std::mutex> lk{m_future_mutex};
+  if (!m_future)
+  {
+    return ExecutionStatus::FAILURE;
+  }
   if (!m_future->IsReady())
   {
     return ExecutionStatus::RUNNING;
   }
   auto reply = m_future->GetValue();
+  lk.unlock();
   auto [success, user_value] = ParseUserValueReply(reply);
   if (!success)
   {
diff --git a/src/lib/sup/oac-tree/instructions/input.h b/src/lib/sup/oac-tree/instructions/input.h
index 32ed0e9..e2d6be2 100644
--- a/src/lib/sup/oac-tree/instructions/input.h
+++ b/src/lib/sup/oac-tree/instructions/input.h
@@ -26,6 +26,7 @@
 #include <sup/oac-tree/instruction.h>
 
 #include <memory>
+#include <mutex>
 
 namespace sup
 {
@@ -49,6 +50,8 @@ public:
 
 private:
   std::unique_ptr<IUserInputFuture> m_future;
+  // Halting happens from another thread than the one that polls the future.
+  std::mutex m_future_mutex;
 
   bool InitHook(UserInterface& ui, Workspace& ws) override;
 
diff --git a/src/lib/sup/oac-tree/instructions/user_choice.cpp b/src/lib/sup/oac-tree/instructions/user_choice.cpp
index b6a41c1..8c98a02 100644
--- a/src/lib/sup/oac-tree/instructions/user_choice.cpp
+++ b/src/lib/sup/oac-tree/instructions/user_choice.cpp
@@ -36,6 +36,7 @@ UserChoice::UserChoice()
   : CompoundInstruction(UserChoice::Type)
   , m_choice{-1}
   , m_future{}
+  , m_future_mutex{}
 {
   AddAttributeDefinition(Constants::DESCRIPTION_ATTRIBUTE_NAME)
     .SetCategory(AttributeCategory::kBoth);
@@ -55,7 +56,9 @@ bool UserChoice::InitHook(UserInterface& ui, Workspace& ws)
   metadata.AddMember(Constants::USER_CHOICES_DIALOG_TYPE_NAME,
                      {sup::dto::UnsignedInteger32Type, dialog_type::kSelection});
   auto options = GetChoices();
-  m_future = CreateUserChoiceFuture(ui, *this, options, metadata);
+  auto future = CreateUserChoiceFuture(ui, *this, options, metadata);
+  std::lock_guard<std::mutex> lk{m_future_mutex};
+  m_future = std::move(future);
   if (!m_future)
   {
     return false;
@@ -65,17 +68,23 @@ bool UserChoice::InitHook(UserInterface& ui, Workspace& ws)
 
 ExecutionStatus UserChoice::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
 {
-  if (IsHaltRequested() || !m_future)
+  if (IsHaltRequested())
   {
     return ExecutionStatus::FAILURE;
   }
   if (m_choice < 0)
   {
+    std::unique_lock<std::mutex> lk{m_future_mutex};
+    if (!m_future)
+    {
+      return ExecutionStatus::FAILURE;
+    }
     if (!m_future->IsReady())
     {
       return ExecutionStatus::RUNNING;
     }
     auto reply = m_future->GetValue();
+    lk.unlock();
     auto [success, choice] = ParseUserChoiceReply(reply);
     if (!success)
     {
@@ -109,7 +118,13 @@ void UserChoice::ResetHook(UserInterface& ui)
 
 void UserChoice::HaltImpl()
 {
-  m_future.reset();
+  std::unique_ptr<IUserInputFuture> future;
+  {
+    std::lock_guard<std::mutex> lk{m_future_mutex};
+    std::swap(future, m_future);
+  }
+  // The request is cancelled outside of the lock.
+  future.reset();
   HaltChildren();
 }
 
diff --git a/src/lib/sup/oac-tree/instructions/user_choice.h b/src/lib/sup/oac-tree/instructions/user_choice.h
index c9be1da..f910853 100644
--- a/src/lib/sup/oac-tree/instructions/user_choice.h
+++ b/src/lib/sup/oac-tree/instructions/user_choice.h
@@ -25,6 +25,8 @@
 
 #include <sup/oac-tree/compound_instruction.h>
 
+#include <memory>
+#include <mutex>
 #include <string>
 #include <vector>
 
@@ -50,6 +52,8 @@ public:
 private:
   sup::dto::int32 m_choice;
   std::unique_ptr<IUserInputFuture> m_future;
+  // Halting happens from another thread than the one that polls the future.
+  std::mutex m_future_mutex;
 
   bool InitHook(UserInterface& ui, Workspace& ws) override;
 
diff --git a/src/lib/sup/oac-tree/instructions/user_confirmation.cpp b/src/lib/sup/oac-tree/instructions/user_confirmation.cpp
index 05bfd65..24d737c 100644
--- a/src/lib/sup/oac-tree/instructions/user_confirmation.cpp
+++ b/src/lib/sup/oac-tree/instructions/user_confirmation.cpp
@@ -37,6 +37,7 @@ const std::string DEFAULT_CANCEL_TEXT = "Cancel";
 UserConfirmation::UserConfirmation()
   : Instruction(UserConfirmation::Type)
   , m_future{}
+  , m_future_mutex{}
 {
   AddAttributeDefinition(Constants::DESCRIPTION_ATTRIBUTE_NAME)
     .SetCategory(AttributeCategory::kBoth).SetMandatory();
@@ -69,7 +70,9 @@ bool UserConfirmation::InitHook(UserInterface& ui, Workspace& ws)
   metadata.AddMember(Constants::USER_CHOICES_DIALOG_TYPE_NAME,
                      {sup::dto::UnsignedInteger32Type, dialog_type::kConfirmation});
   std::vector<std::string> options = { ok_text, cancel_text };
-  m_future = CreateUserChoiceFuture(ui, *this, options, metadata);
+  auto future = CreateUserChoiceFuture(ui, *this, options, metadata);
+  std::lock_guard<std::mutex> lk{m_future_mutex};
+  m_future = std::move(future);
   if (!m_future)
   {
     return false;
@@ -79,7 +82,7 @@ bool UserConfirmation::InitHook(UserInterface& ui, Workspace& ws)
 
 ExecutionStatus UserConfirmation::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
 {
-  if (IsHaltRequested() || !m_future)
+  if (IsHaltRequested())
   {
     return ExecutionStatus::FAILURE;
   }
@@ -93,16 +96,28 @@ void UserConfirmation::ResetHook(UserInterface& ui)
 
 void UserConfirmation::HaltImpl()
 {
-  m_future.reset();
+  std::unique_ptr<IUserInputFuture> future;
+  {
+    std::lock_guard<std::mutex> lk{m_future_mutex};
+    std::swap(future, m_future);
+  }
+  // The request is cancelled outside of the lock.
+  future.reset();
 }
 
 ExecutionStatus UserConfirmation::PollInputFuture(UserInterface& ui, Workspace& ws)
 {
+  std::unique_lock<std::mutex> lk{m_future_mutex};
+  if (!m_future)
+  {
+    return ExecutionStatus::FAILURE;
+  }
   if (!m_future->IsReady())
   {
     return ExecutionStatus::RUNNING;
   }
   auto reply = m_future->GetValue();
+  lk.unlock();
   auto [success, choice] = ParseUserChoiceReply(reply);
   if (!success)
   {
diff --git a/src/lib/sup/oac-tree/instructions/user_confirmation.h b/src/lib/sup/oac-tree/instructions/user_confirmation.h
index 086299f..9049377 100644
--- a/src/lib/sup/oac-tree/instructions/user_confirmation.h
+++ b/src/lib/sup/oac-tree/instructions/user_confirmation.h
@@ -25,6 +25,9 @@
 
 #include <sup/oac-tree/instruction.h>
 
+#include <memory>
+#include <mutex>
+
 namespace sup
 {
 namespace oac_tree
@@ -44,6 +47,8 @@ public:
 
 private:
   std::unique_ptr<IUserInputFuture> m_future;
+  // Halting happens from another thread than the one that polls the future.
+  std::mutex m_future_mutex;
 
   bool InitHook(UserInterface& ui, Workspace& ws) override;
 
-- 
2.43.0

