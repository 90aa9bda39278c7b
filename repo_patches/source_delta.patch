From 35c7361fc74d9b64036928c497e8cb632eab9a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 01/73] fix: honour an explicit zero multiplier of a group or
 hydrate in a formula

---
 auxi/tools/chemistry/stoichiometry.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/auxi/tools/chemistry/stoichiometry.py b/auxi/tools/chemistry/stoichiometry.py
index 48b068e..a75e422 100644
--- a/auxi/tools/chemistry/stoichiometry.py
+++ b/auxi/tools/chemistry/stoichiometry.py
@@ -137,13 +137,17 @@ class CompoundVisitor(parsimonious.NodeVisitor):
 
     def visit_dottedgroup(self, _, dottedgroup):
         (_, number, group) = dottedgroup
-        if not number:
+        # An absent optional number is visited to an empty list; an explicit
+        # zero is a number.
+        if number == []:
             number = 1
         return Group([group], number, dotted=True)
 
     def visit_subscriptedgroup(self, _, subscriptedgroup):
         (_, group, _, number) = subscriptedgroup
-        if not number:
+        # An absent optional number is visited to an empty list; an explicit
+        # zero is a number.
+        if number == []:
             number = 1
         return Group([group], number)
 
-- 
2.43.0


From 31f9d72eb55d9a30e618eb615967a6497d5f9429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 02/73] fix: read the magnetic data of a phase from its
 dictionary

---
 auxi/tools/chemistry/thermochemistry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/auxi/tools/chemistry/thermochemistry.py b/auxi/tools/chemistry/thermochemistry.py
index 12e1cbb..a87ab50 100644
--- a/auxi/tools/chemistry/thermochemistry.py
+++ b/auxi/tools/chemistry/thermochemistry.py
@@ -166,15 +166,15 @@ class Phase(NamedObject):
         """[J/mol/K] The standard entropy of the phase at Tref."""
 
         if 'magnetic' in dictionary:
-            self.Tc_mag = ['magnetic']['Tc']
+            self.Tc_mag = dictionary['magnetic']['Tc']
             """The critical temperature, which is the Curie temperature for
             ferromagnetic materials or the Neel temperature for
             antiferromagnetic materials."""
 
-            self.beta0_mag = ['magnetic']['beta0']
+            self.beta0_mag = dictionary['magnetic']['beta0']
             """The average magnetic moment per atom."""
 
-            self.p_mag = ['magnetic']['p']
+            self.p_mag = dictionary['magnetic']['p']
             """This value can be thought of as the fraction of the magnetic
             enthalpy absorbed above the critical. It depends on structure."""
 
-- 
2.43.0


From 88905f2f2e5df1ff2328cbb64ae70e07d79e3419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 03/73] fix: restart record numbering with every phase of a
 FactSage file

---
 auxi/tools/chemistry/thermochemistry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/auxi/tools/chemistry/thermochemistry.py b/auxi/tools/chemistry/thermochemistry.py
index a87ab50..4481aa6 100644
--- a/auxi/tools/chemistry/thermochemistry.py
+++ b/auxi/tools/chemistry/thermochemistry.py
@@ -588,6 +588,7 @@ def _read_compound_from_factsage_file_(file_name):
             phase = strings[0]
             if phase != phaseold:  # new phase detected
                 phaseold = phase
+                recordold = '0'  # record numbers restart with every phase
                 ph = phs[phase] = {}
                 ph['Symbol'] = phase
                 ph['DHref'] = float(strings[2])
-- 
2.43.0


From 1bdf92194503ed80b5770472bb9f98d4dc003784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 04/73] fix: count the magnetic contribution once when
 extrapolating a phase

---
 auxi/tools/chemistry/thermochemistry.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/auxi/tools/chemistry/thermochemistry.py b/auxi/tools/chemistry/thermochemistry.py
index 4481aa6..fbe3d06 100644
--- a/auxi/tools/chemistry/thermochemistry.py
+++ b/auxi/tools/chemistry/thermochemistry.py
@@ -288,7 +288,8 @@ class Phase(NamedObject):
 
         # Extrapolate beyond the upper limit by using a constant heat capacity.
         Tmax = max([float(TT) for TT in self._Cp_records.keys()])
-        result += self.Cp(Tmax)*(T - Tmax)
+        Cp = self._Cp_records[str(Tmax)].Cp(Tmax)
+        result += Cp*(T - Tmax)
 
         return result + self.H_mag(T)
 
@@ -334,7 +335,8 @@ class Phase(NamedObject):
 
         # Extrapolate beyond the upper limit by using a constant heat capacity.
         Tmax = max([float(TT) for TT in self._Cp_records.keys()])
-        result += self.Cp(Tmax)*math.log(T / Tmax)
+        Cp = self._Cp_records[str(Tmax)].Cp(Tmax)
+        result += Cp*math.log(T / Tmax)
 
         return result + self.S_mag(T)
 
@@ -381,8 +383,9 @@ class Phase(NamedObject):
 
         # Extrapolate beyond the upper limit by using a constant heat capacity.
         Tmax = max([float(TT) for TT in self._Cp_records.keys()])
-        h = h + self.Cp(Tmax)*(T - Tmax)
-        s = s + self.Cp(Tmax)*math.log(T / Tmax)
+        Cp = self._Cp_records[str(Tmax)].Cp(Tmax)
+        h = h + Cp*(T - Tmax)
+        s = s + Cp*math.log(T / Tmax)
 
         return h - T * s + self.G_mag(T)
 
-- 
2.43.0


From 56aa1d4690c80e382519029851fe3bdd9ed4d96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 05/73] fix: keep shared references intact when an object is
 written and read back

---
 auxi/core/objects.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/auxi/core/objects.py b/auxi/core/objects.py
index 655998c..ee2cf43 100644
--- a/auxi/core/objects.py
+++ b/auxi/core/objects.py
@@ -21,8 +21,9 @@ class Object(object):
 
     def __str__(self):
         o = json.loads(jsonpickle.encode(self))
-        result = json.dumps(o, sort_keys=True, indent=4,
-                            separators=(',', ': '))
+        # The order of the keys has to stay as encoded: references to shared
+        # objects are numbered in that order.
+        result = json.dumps(o, indent=4, separators=(',', ': '))
         return result
 
     def __hash__(self):
-- 
2.43.0


From 4ceda0c0bac4823808a85ba5182ffaa551db03e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 06/73] fix: construct a variable group as what it is

---
 auxi/modelling/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/core.py b/auxi/modelling/core.py
index fe11d9a..d1492b8 100644
--- a/auxi/modelling/core.py
+++ b/auxi/modelling/core.py
@@ -57,7 +57,10 @@ class VariableGroup(NamedObject):
 
     def __init__(self, name, value, units=None, category=None,
                  description=None):
-        super(Variable, self).__init__(name, description)
+        super(VariableGroup, self).__init__(name, description)
+        self.category = category
+        self.value = value
+        self.units = units
 
     def __call__(self):
         return self.value
-- 
2.43.0


From 7f7322053b9b576f182d127f3e590d62d0b2feb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 07/73] fix: return None for a sub account that does not exist

---
 auxi/modelling/financial/des.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/financial/des.py b/auxi/modelling/financial/des.py
index e8b530e..d84337a 100644
--- a/auxi/modelling/financial/des.py
+++ b/auxi/modelling/financial/des.py
@@ -56,7 +56,10 @@ class GeneralLedgerAccount(NamedObject):
         super(GeneralLedgerAccount, self).__init__(name, description)
 
     def __getitem__(self, key):
-        return [a for a in self.accounts if a.name == key][0]
+        for a in self.accounts:
+            if a.name == key:
+                return a
+        return None
 
     def __missing__(self, key):
         return None
-- 
2.43.0


From 06ad20c5b41cce0dbc6757949460f006ae879819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 08/73] fix: report on accounts without a number

---
 auxi/modelling/financial/reporting.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index 73eb595..554f8ba 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -55,12 +55,14 @@ class GeneralLedgerStructure(Report):
         super(GeneralLedgerStructure, self).__init__(data_source, output_path)
 
     def _gl_accounts_to_table_(self, table, account, prefix=''):
+        # The number of an account is optional.
+        number = account.number or ''
         table.append([account.account_type.name,
-                      prefix + account.number,
+                      prefix + number,
                       account.name, account.description])
-        for acc in sorted(account.accounts, key=lambda a: a.number):
+        for acc in sorted(account.accounts, key=lambda a: a.number or ''):
             self._gl_accounts_to_table_(
-                table, acc, account.number + '/')
+                table, acc, number + '/')
 
     def _generate_table_(self):
         table = [["Type", "Number", "Name", "Description"]]
-- 
2.43.0


From d2d76ed4e8ad62573f7ef145b4c4361dda075d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 09/73] fix: subtract the first credit to an expense account in
 the income statement

---
 auxi/modelling/financial/reporting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index 554f8ba..3d07d7d 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -278,7 +278,7 @@ class IncomeStatement(Report):
                         if t.cr_account in summedExpenses:
                             summedExpenses[t.cr_account] -= t.amount
                         else:
-                            summedExpenses[t.cr_account] = t.amount
+                            summedExpenses[t.cr_account] = -t.amount
                 if not t.is_closing_cr_account and \
                    not t.is_closing_dt_account and t.dt_account != "":
                     if dt_account_type == AccountType.revenue:
-- 
2.43.0


From 112be0dab3cc850376632d2c2baa3d4f3011e100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 10/73] fix: subtract the first debit to a revenue account in
 the income statement

---
 auxi/modelling/financial/reporting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index 3d07d7d..8c57e32 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -285,7 +285,7 @@ class IncomeStatement(Report):
                         if t.dt_account in summedIncome:
                             summedIncome[t.dt_account] -= t.amount
                         else:
-                            summedIncome[t.dt_account] = t.amount
+                            summedIncome[t.dt_account] = -t.amount
                     elif dt_account_type == AccountType.expense:
                         if t.dt_account in summedExpenses:
                             summedExpenses[t.dt_account] += t.amount
-- 
2.43.0


From fc85acdea1646e399e697652db4a17047ed416ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 11/73] fix: report on a component's own transactions, and on
 those without a source

---
 auxi/modelling/financial/reporting.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index 8c57e32..ddd29be 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -43,6 +43,22 @@ class Report(ReportBase):
         super(Report, self).__init__(data_source, output_path)
 
 
+def _is_from_component_(source, component_path):
+    """
+    Determine whether a transaction originated from a component.
+
+    :param source: The path of the transaction's source.
+    :param component_path: The path of the component. All sources are part of
+      an empty path.
+
+    :returns: True if the source is the component or a part of it.
+    """
+
+    source = source or ''
+    return component_path == '' or source == component_path or \
+        source.startswith(component_path.rstrip('/') + '/')
+
+
 class GeneralLedgerStructure(Report):
     """
     Report on a general ledger structure.
@@ -105,14 +121,15 @@ class TransactionList(Report):
         amount_tot = 0
         tx_list = self.data_source.transactions
         for t in sorted(tx_list, key=lambda v: v.tx_date):
-            if not t.source.startswith(self.component_path):
+            if not _is_from_component_(t.source, self.component_path):
                 continue
             if self.start_date <= t.tx_date <= self.end_date:
-                if t.source.endswith(t.name):
+                source = t.source or ''
+                if source.endswith(t.name):
                     name = ''
                 else:
                     name = t.name
-                table.append([t.tx_date, t.source, name,
+                table.append([t.tx_date, source, name,
                               t.dt_account, t.cr_account,
                               "%.2f" % t.amount,
                               "" if t.description is None else t.description])
@@ -262,7 +279,7 @@ class IncomeStatement(Report):
         summedIncome = {}
         summedExpenses = {}
         for t in self.data_source.transactions:
-            if not t.source.startswith(self.component_path):
+            if not _is_from_component_(t.source, self.component_path):
                 continue
             if self.start_date <= t.tx_date <= self.end_date:
                 cr_account_type = gls.get_account(t.cr_account).account_type
-- 
2.43.0


From 0c3e3a5bbc5354a3feddcb99adfe6a4704cda77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 12/73] fix: report on any mix of dates, datetimes and date
 strings

---
 auxi/modelling/financial/reporting.py | 37 +++++++++++++++++++--------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index ddd29be..34923e6 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -3,7 +3,7 @@
 This module provides classes to manage currencies.
 """
 
-from datetime import datetime
+from datetime import datetime, time
 
 from enum import Enum
 
@@ -43,6 +43,23 @@ class Report(ReportBase):
         super(Report, self).__init__(data_source, output_path)
 
 
+def _get_datetime_(date, at=time.min):
+    """
+    Get the datetime from a value that could be a datetime or date object, or a
+    string.
+
+    :param date: The datetime or date object, or string.
+    :param at: The time of day to use if the value has none.
+
+    :returns: The datetime.
+    """
+
+    date = get_date(date)
+    if isinstance(date, datetime):
+        return date
+    return datetime.combine(date, at)
+
+
 def _is_from_component_(source, component_path):
     """
     Determine whether a transaction originated from a component.
@@ -110,8 +127,8 @@ class TransactionList(Report):
     def __init__(self, data_source, start=datetime.min.date(),
                  end=datetime.max.date(), component_path="",
                  output_path=None):
-        self.start_date = get_date(start)
-        self.end_date = get_date(end)
+        self.start_date = _get_datetime_(start)
+        self.end_date = _get_datetime_(end, time.max)
         self.component_path = component_path
         super(TransactionList, self).__init__(data_source, output_path)
 
@@ -120,10 +137,10 @@ class TransactionList(Report):
                   "Credit Account", "Amount", "Description"]]
         amount_tot = 0
         tx_list = self.data_source.transactions
-        for t in sorted(tx_list, key=lambda v: v.tx_date):
+        for t in sorted(tx_list, key=lambda v: _get_datetime_(v.tx_date)):
             if not _is_from_component_(t.source, self.component_path):
                 continue
-            if self.start_date <= t.tx_date <= self.end_date:
+            if self.start_date <= _get_datetime_(t.tx_date) <= self.end_date:
                 source = t.source or ''
                 if source.endswith(t.name):
                     name = ''
@@ -151,7 +168,7 @@ class BalanceSheet(Report):
     def __init__(self, data_source, end=datetime.max.date(), output_path=None):
         """
         """
-        self.end_date = get_date(end)
+        self.end_date = _get_datetime_(end, time.max)
         super(BalanceSheet, self).__init__(data_source, output_path)
 
     def _sum_amounts_per_account_(self):
@@ -161,7 +178,7 @@ class BalanceSheet(Report):
         summedEquity = {}
 
         for t in self.data_source.transactions:
-            if t.tx_date <= self.end_date:
+            if _get_datetime_(t.tx_date) <= self.end_date:
                 cr_account_type = gls.get_account(t.cr_account).account_type
                 dt_account_type = gls.get_account(t.dt_account).account_type
                 if cr_account_type == AccountType.asset:
@@ -269,8 +286,8 @@ class IncomeStatement(Report):
                  end=datetime.max.date(), component_path="", output_path=None):
         """
         """
-        self.start_date = get_date(start)
-        self.end_date = get_date(end)
+        self.start_date = _get_datetime_(start)
+        self.end_date = _get_datetime_(end, time.max)
         self.component_path = component_path
         super(IncomeStatement, self).__init__(data_source, output_path)
 
@@ -281,7 +298,7 @@ class IncomeStatement(Report):
         for t in self.data_source.transactions:
             if not _is_from_component_(t.source, self.component_path):
                 continue
-            if self.start_date <= t.tx_date <= self.end_date:
+            if self.start_date <= _get_datetime_(t.tx_date) <= self.end_date:
                 cr_account_type = gls.get_account(t.cr_account).account_type
                 dt_account_type = gls.get_account(t.dt_account).account_type
                 if not t.is_closing_cr_account and \
-- 
2.43.0


From 9ca4b2752b39ef3b21e902d327ac989e2e380469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 13/73] fix: write off a revenue account that was only debited
 during the year

---
 auxi/modelling/business/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/business/structure.py b/auxi/modelling/business/structure.py
index 01704da..f572628 100644
--- a/auxi/modelling/business/structure.py
+++ b/auxi/modelling/business/structure.py
@@ -441,7 +441,7 @@ class Entity(NamedObject):
                     else:
                         inc_summary_write_off_accs[cr_acc] = tx.amount
                 elif dt_acc.account_type == AccountType.revenue:
-                    if dt_acc.account_type == AccountType.revenue:
+                    if dt_acc in inc_summary_write_off_accs:
                         inc_summary_write_off_accs[dt_acc] -= tx.amount
                     else:
                         inc_summary_write_off_accs[dt_acc] = -tx.amount
-- 
2.43.0


From 6dab232b814c97195934ba31576e8ca47c98566b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 14/73] fix: write off both accounts of a transaction at year
 end

---
 auxi/modelling/business/structure.py | 34 +++++++++++++---------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/auxi/modelling/business/structure.py b/auxi/modelling/business/structure.py
index f572628..5ad5057 100644
--- a/auxi/modelling/business/structure.py
+++ b/auxi/modelling/business/structure.py
@@ -418,39 +418,37 @@ class Entity(NamedObject):
                         gross_profit_write_off_accs[cr_acc] += tx.amount
                     else:
                         gross_profit_write_off_accs[cr_acc] = tx.amount
-                elif dt_acc in sales_accs:
-                    if dt_acc in gross_profit_write_off_accs:
-                        gross_profit_write_off_accs[dt_acc] -= tx.amount
-                    else:
-                        gross_profit_write_off_accs[dt_acc] = -tx.amount
-
                 elif cr_acc in cost_of_sales_accs:
                     if cr_acc in gross_profit_write_off_accs:
                         gross_profit_write_off_accs[cr_acc] += tx.amount
                     else:
                         gross_profit_write_off_accs[cr_acc] = tx.amount
-                elif dt_acc in cost_of_sales_accs:
-                    if dt_acc in gross_profit_write_off_accs:
-                        gross_profit_write_off_accs[dt_acc] -= tx.amount
-                    else:
-                        gross_profit_write_off_accs[dt_acc] = -tx.amount
-
                 elif cr_acc.account_type == AccountType.revenue:
                     if cr_acc in inc_summary_write_off_accs:
                         inc_summary_write_off_accs[cr_acc] += tx.amount
                     else:
                         inc_summary_write_off_accs[cr_acc] = tx.amount
-                elif dt_acc.account_type == AccountType.revenue:
-                    if dt_acc in inc_summary_write_off_accs:
-                        inc_summary_write_off_accs[dt_acc] -= tx.amount
-                    else:
-                        inc_summary_write_off_accs[dt_acc] = -tx.amount
-
                 elif cr_acc.account_type == AccountType.expense:
                     if cr_acc in inc_summary_write_off_accs:
                         inc_summary_write_off_accs[cr_acc] -= tx.amount
                     else:
                         inc_summary_write_off_accs[cr_acc] = -tx.amount
+
+                if dt_acc in sales_accs:
+                    if dt_acc in gross_profit_write_off_accs:
+                        gross_profit_write_off_accs[dt_acc] -= tx.amount
+                    else:
+                        gross_profit_write_off_accs[dt_acc] = -tx.amount
+                elif dt_acc in cost_of_sales_accs:
+                    if dt_acc in gross_profit_write_off_accs:
+                        gross_profit_write_off_accs[dt_acc] -= tx.amount
+                    else:
+                        gross_profit_write_off_accs[dt_acc] = -tx.amount
+                elif dt_acc.account_type == AccountType.revenue:
+                    if dt_acc in inc_summary_write_off_accs:
+                        inc_summary_write_off_accs[dt_acc] -= tx.amount
+                    else:
+                        inc_summary_write_off_accs[dt_acc] = -tx.amount
                 elif dt_acc.account_type == AccountType.expense:
                     if dt_acc in inc_summary_write_off_accs:
                         inc_summary_write_off_accs[dt_acc] += tx.amount
-- 
2.43.0


From 933516b97da8b8a86f913a3f9a74b73d044ada90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 15/73] fix: do not execute an activity before its start

---
 auxi/modelling/business/structure.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/auxi/modelling/business/structure.py b/auxi/modelling/business/structure.py
index 5ad5057..30bc9c5 100644
--- a/auxi/modelling/business/structure.py
+++ b/auxi/modelling/business/structure.py
@@ -90,6 +90,9 @@ class Activity(NamedObject):
 
         if self.start_period_ix == -1 and self.start_datetime != datetime.min:
             # Set the Start period index
+            if self.start_datetime > clock.get_datetime_at_period_ix(0):
+                # Does not start if no period in the loop below follows it.
+                self.start_period_ix = period_count
             for i in range(0, period_count):
                 if clock.get_datetime_at_period_ix(i) > self.start_datetime:
                     self.start_period_ix = i
-- 
2.43.0


From 46940935e6bf58226d0e829e5d7e9b4903525b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 16/73] fix: prepare an activity afresh for every run

---
 auxi/modelling/business/structure.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/auxi/modelling/business/structure.py b/auxi/modelling/business/structure.py
index 30bc9c5..7028b78 100644
--- a/auxi/modelling/business/structure.py
+++ b/auxi/modelling/business/structure.py
@@ -88,8 +88,9 @@ class Activity(NamedObject):
           requested to be run for.
         """
 
-        if self.start_period_ix == -1 and self.start_datetime != datetime.min:
+        if self.start_datetime != datetime.min:
             # Set the Start period index
+            self.start_period_ix = -1
             if self.start_datetime > clock.get_datetime_at_period_ix(0):
                 # Does not start if no period in the loop below follows it.
                 self.start_period_ix = period_count
@@ -99,11 +100,12 @@ class Activity(NamedObject):
                     break
         if self.start_period_ix == -1:
             self.start_period_ix = 0
-        if self.period_count == -1 and self.end_datetime != datetime.max:
+        if self.end_datetime != datetime.max:
             # Set the Start date
+            self.period_count = -1
             for i in range(0, period_count):
                 if clock.get_datetime_at_period_ix(i) > self.end_datetime:
-                    self.period_count = i - self.start_period_ix
+                    self.period_count = max(i - self.start_period_ix, 0)
                     break
         if self.period_count != -1:
             self.end_period_ix = self.start_period_ix + self.period_count
-- 
2.43.0


From 430c6ca087d98599a8334ab3a2ab78eb37461f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 17/73] fix: repay a loan without interest, the default rate

---
 auxi/modelling/business/basic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/auxi/modelling/business/basic.py b/auxi/modelling/business/basic.py
index 4b5cdb7..dd9ac92 100644
--- a/auxi/modelling/business/basic.py
+++ b/auxi/modelling/business/basic.py
@@ -193,6 +193,9 @@ class BasicLoanActivity(Activity):
 
     def _update_monthly_payment_(self):
         int_rate = self._monthly_interest_rate
+        if int_rate == 0:
+            self._monthly_payment = self.amount / self.duration
+            return
         val = (self.amount * int_rate)
         val = val / (1 - (1 / pow((1 + int_rate), self.duration)))
         self._monthly_payment = val
-- 
2.43.0


From fc2085e259abaf89010f2ff2af932a4a5ca63478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 18/73] fix: accept a date string as the start of a loan like
 for other activities

---
 auxi/modelling/business/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/business/basic.py b/auxi/modelling/business/basic.py
index dd9ac92..aabd13f 100644
--- a/auxi/modelling/business/basic.py
+++ b/auxi/modelling/business/basic.py
@@ -179,7 +179,7 @@ class BasicLoanActivity(Activity):
             name,
             description=description,
             start=start,
-            end=start + relativedelta(months=duration+1),
+            end=self._get_date_(start) + relativedelta(months=duration+1),
             interval=interval)
         self.bank_account = bank_account
         self.loan_account = loan_account
-- 
2.43.0


From 8da91589229474c38a9af47a0007d1868ff48f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 19/73] fix: include the model in the path of a new entity

---
 auxi/modelling/business/models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/auxi/modelling/business/models.py b/auxi/modelling/business/models.py
index 0dffa67..41450de 100644
--- a/auxi/modelling/business/models.py
+++ b/auxi/modelling/business/models.py
@@ -74,6 +74,7 @@ class TimeBasedModel(NamedObject):
         """
 
         new_entity = Entity(name, gl_structure, description=description)
+        new_entity.set_parent_path(self.name)
         self.entities.append(new_entity)
         return new_entity
 
-- 
2.43.0


From 53a78a90c4962e141842ce5d594cab62c2377dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 20/73] fix: start a model at the datetime of a date, which
 activities compare with

---
 auxi/modelling/business/models.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/business/models.py b/auxi/modelling/business/models.py
index 41450de..2d2d908 100644
--- a/auxi/modelling/business/models.py
+++ b/auxi/modelling/business/models.py
@@ -3,7 +3,7 @@
 This module provides classes to work with business models.
 """
 
-from datetime import datetime
+from datetime import datetime, time
 
 from auxi.core.objects import NamedObject
 from auxi.core.time import Clock, TimePeriod
@@ -41,9 +41,12 @@ class TimeBasedModel(NamedObject):
                  start_datetime=datetime.now(),
                  period_duration=TimePeriod.year,
                  period_count=1):
+        start_datetime = get_date(start_datetime)
+        if not isinstance(start_datetime, datetime):
+            start_datetime = datetime.combine(start_datetime, time.min)
         self.clock = Clock(
             "Clock",
-            start_datetime=get_date(start_datetime),
+            start_datetime=start_datetime,
             timestep_period_duration=period_duration)
         self.period_count = period_count
         self.entities = []
-- 
2.43.0


From 43007dcbf276b6a16de947b8460b019a91e23d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 21/73] fix: keep all the digits of amounts in tabulated
 reports

---
 auxi/core/reporting.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/auxi/core/reporting.py b/auxi/core/reporting.py
index 7378b15..f1b4eed 100644
--- a/auxi/core/reporting.py
+++ b/auxi/core/reporting.py
@@ -63,7 +63,7 @@ class Report(Object):
 
         table = self._generate_table_()
         if format == ReportFormat.printout:
-            print(tabulate(table, headers="firstrow", tablefmt="simple"))
+            print(self._tabulate_(table, "simple"))
         elif format == ReportFormat.latex:
             self._render_latex_(table)
         elif format == ReportFormat.txt:
@@ -71,7 +71,7 @@ class Report(Object):
         elif format == ReportFormat.csv:
             self._render_csv_(table)
         elif format == ReportFormat.string:
-            return str(tabulate(table, headers="firstrow", tablefmt="simple"))
+            return str(self._tabulate_(table, "simple"))
         elif format == ReportFormat.matplotlib:
             self._render_matplotlib_()
         elif format == ReportFormat.png:
@@ -80,21 +80,25 @@ class Report(Object):
             else:
                 self._render_matplotlib_(True)
 
+    def _tabulate_(self, table, tablefmt):
+        # The cells are formatted already: do not format those that look like
+        # numbers again, which would round amounts to six digits.
+        return tabulate(table, headers="firstrow", tablefmt=tablefmt,
+                        disable_numparse=True)
+
     def _render_latex_(self, table):
         if self.output_path is not None:
             with open(self.output_path + '.tex', 'w') as f:
-                f.write(
-                    tabulate(table, headers="firstrow", tablefmt="latex"))
+                f.write(self._tabulate_(table, "latex"))
         else:
-            print(tabulate(table, headers="firstrow", tablefmt="latex"))
+            print(self._tabulate_(table, "latex"))
 
     def _render_txt_(self, table):
         if self.output_path is not None:
             with open(self.output_path + '.txt', 'w') as f:
-                f.write(
-                    tabulate(table, headers="firstrow", tablefmt="simple"))
+                f.write(self._tabulate_(table, "simple"))
         else:
-            print(tabulate(table, headers="firstrow", tablefmt="simple"))
+            print(self._tabulate_(table, "simple"))
 
     def _render_csv_(self, table):
         if self.output_path is not None:
-- 
2.43.0


From 9db60d37bb8e1fe66357f23d1a8c75e25e080f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 22/73] fix: add the compound masses of chem packages of the
 same material

---
 auxi/modelling/process/materials/chem.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index a4a9d1f..5934e04 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -277,7 +277,8 @@ class MaterialPackage(Object):
             if self.material == other.material:
                 result = MaterialPackage(
                     self.material,
-                    self.compound_masses + other.compound_masses)
+                    [a + b for a, b in zip(self.compound_masses,
+                                           other.compound_masses)])
                 return result
             else:  # Packages of different materials.
                 result = self.clone()
@@ -553,7 +554,9 @@ class MaterialPackage(Object):
 
             # Packages of the same material.
             if self.material == other.material:
-                self.compound_masses += other.compound_masses
+                self.compound_masses = [
+                    a + b for a, b in zip(self.compound_masses,
+                                          other.compound_masses)]
 
             # Packages of different materials.
             else:
-- 
2.43.0


From 83009c3528b808f565a38e87cf654ab0bd1da996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 23/73] fix: clear a chem package

---
 auxi/modelling/process/materials/chem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index 5934e04..0128baa 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -379,7 +379,7 @@ class MaterialPackage(Object):
         Set all the compound masses in the package to zero.
         """
 
-        self.compound_masses *= 0.0
+        self.compound_masses = [0.0] * len(self.compound_masses)
 
     def get_assay(self):
         """
-- 
2.43.0


From 70f38152aa9fcb3a272f6e645ea237c8f8f947ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 24/73] fix: create an empty chem assay of floats, which can be
 added

---
 auxi/modelling/process/materials/chem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index 0128baa..d3787d2 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -173,7 +173,7 @@ class Material(NamedObject):
         :returns: A floating point array.
         """
 
-        return [0] * self.compound_count
+        return [0.0] * self.compound_count
 
     def add_assay(self, name, assay):
         """
-- 
2.43.0


From ef183b234533278642b5cf12d0bbb0b519df6f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 25/73] fix: name the size class that cannot be added to a psd
 package

---
 auxi/modelling/process/materials/psd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/process/materials/psd.py b/auxi/modelling/process/materials/psd.py
index 593fe22..c9d7523 100644
--- a/auxi/modelling/process/materials/psd.py
+++ b/auxi/modelling/process/materials/psd.py
@@ -290,7 +290,7 @@ class MaterialPackage(Object):
                             "Packages of '" + other.material.name +
                             "' cannot be added to packages of '" +
                             self.material.name +
-                            "'. The size class '" + size_class +
+                            "'. The size class '" + str(size_class) +
                             "' was not found in '" + self.material.name + "'.")
                     result = result + (
                         size_class,
@@ -513,7 +513,7 @@ class MaterialPackage(Object):
                             "Packages of '" + other.material.name +
                             "' cannot be added to packages of '" +
                             self.material.name +
-                            "'. The size class '" + size_class +
+                            "'. The size class '" + str(size_class) +
                             "' was not found in '" + self.material.name + "'.")
                     self.add_to(
                         (size_class, other.get_size_class_mass(size_class)))
-- 
2.43.0


From ebcc7a658fb42b460324f8f510dc11e3f7c869e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 26/73] fix: name the size class that cannot be added to a
 slurry package

---
 auxi/modelling/process/materials/slurry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index eb0a452..f8c3e2e 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -398,7 +398,7 @@ class MaterialPackage(Object):
                             "Packages of '" + other.material.name +
                             "' cannot be added to packages of '" +
                             self.material.name + "'. The size class '" +
-                            size_class + "' was not found in '" +
+                            str(size_class) + "' was not found in '" +
                             self.material.name + "'.")
                     result = result + (
                         size_class, other.get_size_class_mass(size_class))
-- 
2.43.0


From 96fec3759defd6ff6472a7d774915b64339c4123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 27/73] fix: take only H2O for water in a slurry

---
 auxi/modelling/process/materials/slurry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index f8c3e2e..23891b4 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -498,7 +498,7 @@ class MaterialPackage(Object):
             return False
         elif not len(value) == 2:
             return False
-        elif not type(value[0]) is str and not value[0] == "H2O":
+        elif not type(value[0]) is str or not value[0] == "H2O":
             return False
         elif not type(value[1]) is float and \
                 not type(value[1]) is numpy.float64 and \
-- 
2.43.0


From 0a4244a0c79e904ec7462ca8e9c2e002961230cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 28/73] fix: keep the description of a psd material

---
 auxi/modelling/process/materials/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/psd.py b/auxi/modelling/process/materials/psd.py
index c9d7523..b86a216 100644
--- a/auxi/modelling/process/materials/psd.py
+++ b/auxi/modelling/process/materials/psd.py
@@ -65,7 +65,7 @@ class Material(NamedObject):
 
     def __init__(self, name, file_path, description=None):
         # Initialise the material's properties.
-        self.name = name
+        super().__init__(name, description)
         self.size_classes = list()
 
         # Read the material's data from the file and prepare it for use.
-- 
2.43.0


From 19080dd7573eaec9aa8981fdaeea8f4f15243b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 29/73] fix: keep the description of a slurry material

---
 auxi/modelling/process/materials/slurry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index 23891b4..6d1a959 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -74,7 +74,7 @@ class Material(NamedObject):
 
     def __init__(self, name, file_path, description=None):
         # Initialise the material's properties.
-        self.name = name
+        super().__init__(name, description)
         self.size_classes = list()
 
         # Read the material's data from the file and prepare it for use.
-- 
2.43.0


From 392440d1b365e4a11309d3726210bd90e253a471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 30/73] fix: leave a slurry material as it was when an assay is
 rejected

---
 auxi/modelling/process/materials/slurry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index 6d1a959..90cc1e4 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -238,11 +238,9 @@ class Material(NamedObject):
 
         if not type(solid_density) is float:
             raise Exception("Invalid solid density. It must be a float.")
-        self.solid_densities[name] = solid_density
 
         if not type(H2O_fraction) is float:
             raise Exception("Invalid H2O fraction. It must be a float.")
-        self.H2O_fractions[name] = H2O_fraction
 
         if not type(assay) is numpy.ndarray:
             raise Exception("Invalid assay. It must be a numpy array.")
@@ -254,6 +252,8 @@ class Material(NamedObject):
             raise Exception(
                 "Invalid assay: An assay with that name already exists.")
         self.assays[name] = assay
+        self.solid_densities[name] = solid_density
+        self.H2O_fractions[name] = H2O_fraction
 
     def get_assay_total(self, name):
         """
-- 
2.43.0


From 6b192fdd21cfaa539675b63ed88dc2ff45a4c2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 31/73] fix: add slurry packages without solids

---
 auxi/modelling/process/materials/slurry.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index 90cc1e4..b54d77a 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -376,9 +376,12 @@ class MaterialPackage(Object):
         if type(other) is MaterialPackage:
             solid_mass = self.get_solid_mass()
             other_solid_mass = other.get_solid_mass()
-            solid_density = (solid_mass + other_solid_mass) / \
-                (solid_mass / self.solid_density +
-                    other_solid_mass / other.solid_density)
+            if solid_mass + other_solid_mass > 0.0:
+                solid_density = (solid_mass + other_solid_mass) / \
+                    (solid_mass / self.solid_density +
+                        other_solid_mass / other.solid_density)
+            else:
+                solid_density = self.solid_density
             H2O_mass = self.H2O_mass + other.H2O_mass
             # Packages of the same material.
             if self.material == other.material:
-- 
2.43.0


From 4bd9a5ea0bdfc9948013852a29f59caad197e877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 32/73] fix: leave a chem package as it was when adding another
 is rejected

---
 auxi/modelling/process/materials/chem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index d3787d2..0a7c695 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -568,6 +568,7 @@ class MaterialPackage(Object):
                                         "'. The compound '" + compound +
                                         "' was not found in '" +
                                         self.material.name + "'.")
+                for compound in other.material.compounds:
                     self.add_to((compound, other.get_compound_mass(compound)))
 
         # Add the specified mass of the specified compound.
-- 
2.43.0


From 7c831f85c92ea9e9fa3f83d66c1f68b26b89c4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 33/73] fix: leave a psd package as it was when adding another
 is rejected

---
 auxi/modelling/process/materials/psd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/auxi/modelling/process/materials/psd.py b/auxi/modelling/process/materials/psd.py
index b86a216..d3392f2 100644
--- a/auxi/modelling/process/materials/psd.py
+++ b/auxi/modelling/process/materials/psd.py
@@ -515,6 +515,7 @@ class MaterialPackage(Object):
                             self.material.name +
                             "'. The size class '" + str(size_class) +
                             "' was not found in '" + self.material.name + "'.")
+                for size_class in other.material.size_classes:
                     self.add_to(
                         (size_class, other.get_size_class_mass(size_class)))
 
-- 
2.43.0


From 6bb88ac5de8fb442babfe2b8453a5a3293d1da72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 34/73] fix: solve the temperature of small, empty and very
 large packages

---
 auxi/modelling/process/materials/thermo.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index baf7e42..6bad0ca 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -723,11 +723,14 @@ class MaterialPackage(Object):
         y.append(self._calculate_H(x[0]) - H)
         y.append(self._calculate_H(x[1]) - H)
 
-        # Solve for temperature.
+        # Solve for temperature, as accurately for small masses as for others.
+        tolerance = 1.0e-5 * min(self.mass, 1.0)
         for i in range(2, 50):
+            if y[i-1] == y[i-2]:  # Nothing to improve on, e.g. no mass.
+                return x[0] if i == 2 else x[i-1]
             x.append(x[i-1] - y[i-1]*((x[i-1] - x[i-2])/(y[i-1] - y[i-2])))
             y.append(self._calculate_H(x[i]) - H)
-            if abs(y[i-1]) < 1.0e-5:
+            if abs(y[i-1]) < tolerance:
                 break
 
         return x[len(x) - 1]
@@ -1442,11 +1445,14 @@ class MaterialStream(Object):
         y.append(self._calculate_Hfr(x[0]) - Hfr)
         y.append(self._calculate_Hfr(x[1]) - Hfr)
 
-        # Solve for temperature.
+        # Solve for temperature, as accurately for small flows as for others.
+        tolerance = 1.0e-5 * min(self.mfr, 1.0)
         for i in range(2, 50):
+            if y[i-1] == y[i-2]:  # Nothing to improve on, e.g. no flow.
+                return x[0] if i == 2 else x[i-1]
             x.append(x[i-1] - y[i-1]*((x[i-1] - x[i-2])/(y[i-1] - y[i-2])))
             y.append(self._calculate_Hfr(x[i]) - Hfr)
-            if abs(y[i-1]) < 1.0e-5:
+            if abs(y[i-1]) < tolerance:
                 break
 
         return x[len(x) - 1]
-- 
2.43.0


From aee076b4fed61f3ee45cd7961f17590ccbdae064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 35/73] fix: create packages and streams of an assay that was
 added to a material

---
 auxi/modelling/process/materials/thermo.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 6bad0ca..22eaffe 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -137,10 +137,12 @@ class Material(NamedObject):
         if must_read_custom_properties:
             for i in range(i+1, len(lines)):
                 strings = lines[i].split(" ")
+                if len(strings) < len(assay_names) + 1:  # Not a full line.
+                    continue
+                property_name = strings[0]
+                self.custom_properties.append(property_name)
                 for j in range(0, len(self.raw_assays)):
                     assay_name = assay_names[j]
-                    property_name = strings[0]
-                    self.custom_properties.append(property_name)
                     property_dictionary = self.assay_custom_properties[
                         assay_name]
                     property_dictionary[property_name] = float(strings[j+1])
@@ -202,16 +204,13 @@ class Material(NamedObject):
             result += "-" * line_length + "\n"
             result += "Custom Properties:\n"
             result += "-" * line_length + "\n"
-            first_assay = list(sorted(self.assay_custom_properties.keys()))[0]
-            properties = list(sorted(
-                self.assay_custom_properties[first_assay].keys()))
-            for prop in properties:
+            for prop in sorted(self.custom_properties):
                 pad = ''
                 result += prop.ljust(20)
                 for assay_name in assay_names:
                     result += pad + "{:.8e}".format(
-                        self.assay_custom_properties[assay_name][prop]
-                        ).rjust(15)
+                        self.assay_custom_properties[assay_name].get(
+                            prop, float('nan'))).rjust(15)
                     pad = '  '
                 result += "\n"
         result += "=" * line_length + "\n"
@@ -306,6 +305,7 @@ class Material(NamedObject):
                             "exists.")
         self.raw_assays[name] = assay
         self.converted_assays[name] = assay
+        self.assay_custom_properties[name] = dict()
 
     def get_assay_total(self, name):
         """
-- 
2.43.0


From 460900292669b02ebaa0b20f82d3518d111c5bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 36/73] fix: clone the custom properties of a package or stream

---
 auxi/modelling/process/materials/thermo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 22eaffe..f8ff535 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -853,6 +853,7 @@ class MaterialPackage(Object):
 
         result = copy.copy(self)
         result._compound_masses = copy.deepcopy(self._compound_masses)
+        result.custom_properties = copy.deepcopy(self.custom_properties)
         return result
 
     def clear(self):
@@ -1598,6 +1599,7 @@ class MaterialStream(Object):
 
         result = copy.copy(self)
         result._compound_mfrs = copy.deepcopy(self._compound_mfrs)
+        result.custom_properties = copy.deepcopy(self.custom_properties)
         return result
 
     def clear(self):
-- 
2.43.0


From f392e21777d1d6bbf3bd57c1360d06ab118e64c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 37/73] fix: clear the enthalpy flow rate of a stream

---
 auxi/modelling/process/materials/thermo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index f8ff535..b4d2176 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1611,7 +1611,7 @@ class MaterialStream(Object):
         self._compound_mfrs = self._compound_mfrs * 0.0
         self._P = 1.0
         self._T = 25.0
-        self._H = 0.0
+        self._Hfr = 0.0
 
     def get_assay(self):
         """
-- 
2.43.0


From 7436155d80e195b8bf3925b2027e26549c9d7d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 38/73] fix: calculate the element mass flow rates of a stream

---
 auxi/modelling/process/materials/thermo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index b4d2176..9bd5fca 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1695,7 +1695,7 @@ class MaterialStream(Object):
         result = numpy.zeros(len(elements))
         for compound in self.material.compounds:
             result += self.get_compound_mfr(compound) *\
-                stoich.element_mass_fractions(compound, elements)
+                numpy.array(stoich.element_mass_fractions(compound, elements))
         return result
 
     def get_element_mfr_dictionary(self):
-- 
2.43.0


From 5b61e64f0113914b5edf2a4585583a4fab5b477b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 39/73] fix: extract the compounds of a material at the
 pressure they have

---
 auxi/modelling/process/materials/thermo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 9bd5fca..2377486 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1070,7 +1070,7 @@ class MaterialPackage(Object):
         return result
 
     def _extract_material(self, material):
-        result = material.create_package()
+        result = material.create_package(P=self.P, T=self.T)
         for compound in material.compounds:
             mass = self.get_compound_mass(compound)
             result += (compound, mass)
@@ -1843,7 +1843,7 @@ class MaterialStream(Object):
         return result
 
     def _extract_material(self, material):
-        result = material.create_stream()
+        result = material.create_stream(P=self.P, T=self.T)
         for compound in material.compounds:
             mfr = self.get_compound_mfr(compound)
             result += (compound, mfr)
-- 
2.43.0


From 702547f5b75eb33eff6f61533175e281dee73d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 40/73] fix: calculate the enthalpy of coal streams without
 heating value or flow

---
 auxi/modelling/process/materials/thermo.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 2377486..4ee24f8 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1134,7 +1134,7 @@ class MaterialStream(Object):
             self.T).rjust(15) + " °C\n"
         result += "Enthalpy Flow Rate".ljust(20) + '{:.8e}'.format(
             self.Hfr).rjust(15) + " kWh/h\n"
-        if self.isCoal:
+        if self.isCoal and self.HHV is not None:
             result += "HHV".ljust(20) + '{:.8e}'.format(self.HHV).rjust(15) + " MJ/kg\n"
         result += b2
         result += "Compound Details\n"
@@ -1353,6 +1353,8 @@ class MaterialStream(Object):
                 Hin += thermo.H(compound, T, self._compound_mfrs[index])
 
         m_total = m_C + m_H + m_O + m_N + m_S  # kg
+        if m_total == 0.0:
+            return 0.0
 
         Hout = 0.0  # kWh
         Hout += thermo.H('CO2[G]', T, cc(m_C, 'C', 'CO2', 'C'))
@@ -1365,7 +1367,7 @@ class MaterialStream(Object):
         if self.HHV is None:
             # If no HHV is specified, calculate it from the proximate assay
             # using C-H-O-N-S.
-            HHV = (Hout - Hin) / m_total  # kWh/kg daf
+            HHV = Hin / m_total - Hout  # kWh/kg daf
         else:
             # If an HHV is specified, convert it from MJ/kg coal to kWh/kg daf.
             HHV = self.HHV / 3.6  # kWh/kg coal
@@ -1408,6 +1410,8 @@ class MaterialStream(Object):
                 Hfr += dHfr
 
         m_total = m_C + m_H + m_O + m_N + m_S  # kg/h
+        if m_total == 0.0:
+            return Hfr
         y_C = m_C / m_total
         y_H = m_H / m_total
         y_O = m_O / m_total
-- 
2.43.0


From 94a0d9990820007db59edd6f8245961a9cddb605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 41/73] fix: adjust the heating value of coal for compounds
 added and extracted

---
 auxi/modelling/process/materials/thermo.py | 28 ++++++++++++++--------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 4ee24f8..e6d6683 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1263,6 +1263,7 @@ class MaterialStream(Object):
             # Create the result stream.
             result = self * 1.0
             result._compound_mfrs[index] += mfr
+            result._update_HHV(compound, mfr)
             result.Hfr = self._Hfr + enthalpy
             result._P = self._P
             return result
@@ -1814,16 +1815,23 @@ class MaterialStream(Object):
 
     def _update_HHV(self, compound, mfr):
         if self.isCoal:
-            HHV = self.HHV * (self.mfr - mfr)  # MJ
-
-            dH = thermo.H(compound, 25, mfr)  # kWh
-            dH -= thermo.H('CO2[G]', 25, cc(mfr, compound, 'COs', 'C'))  # kWh
-            dH -= thermo.H('H2O[L]', 25, cc(mfr, compound, 'H2O', 'H'))  # kWh
-            dH -= thermo.H('SO2[G]', 25, cc(mfr, compound, 'SO2', 'S'))  # kWh
-            dH *= 3.6  # MJ
-
-            HHV += dH  # MJ
-            HHV /= self.mfr  # MJ/kg coal
+            HHV = self.HHV
+            if HHV is not None and self.mfr > 0.0:
+                HHV *= self.mfr - mfr  # MJ
+
+                # Only the elements of the daf coal burn.
+                if any(stoich.element_mass_fraction(compound, e) == 1.0
+                       for e in 'CHONS'):
+                    dH = thermo.H(compound, 25, mfr)  # kWh
+                    dH -= thermo.H('CO2[G]', 25,
+                                   cc(mfr, compound, 'CO2', 'C'))  # kWh
+                    dH -= thermo.H('H2O[L]', 25,
+                                   cc(mfr, compound, 'H2O', 'H'))  # kWh
+                    dH -= thermo.H('SO2[G]', 25,
+                                   cc(mfr, compound, 'SO2', 'S'))  # kWh
+                    HHV += dH * 3.6  # MJ
+
+                HHV /= self.mfr  # MJ/kg coal
 
             self.HHV = HHV
 
-- 
2.43.0


From e869fa423eb985ea196c86171e926569096237e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 42/73] fix: keep coal coal when extracting from and adding
 coal streams

---
 auxi/modelling/process/materials/thermo.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index e6d6683..02ec7ba 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1202,12 +1202,16 @@ class MaterialStream(Object):
         if type(other) is MaterialStream:
             if self.material == other.material:  # Streams of same material.
                 if self.isCoal or other.isCoal:
-                    HHV = 0
-                    if self.HHV:
-                        HHV += self.HHV * self.mfr
-                    if other.HHV:
-                        HHV += other.HHV * other.mfr
-                    HHV /= self.mfr + other.mfr
+                    if self.HHV is None and other.HHV is None or \
+                       self.mfr + other.mfr == 0.0:
+                        HHV = self.HHV
+                    else:
+                        HHV = 0
+                        if self.HHV:
+                            HHV += self.HHV * self.mfr
+                        if other.HHV:
+                            HHV += other.HHV * other.mfr
+                        HHV /= self.mfr + other.mfr
                     isCoal = True
                 else:
                     isCoal = False
@@ -1786,7 +1790,7 @@ class MaterialStream(Object):
         fraction_to_subtract = mfr / self.mfr
         result = MaterialStream(
             self.material, self._compound_mfrs *
-            fraction_to_subtract, self._P, self._T)
+            fraction_to_subtract, self._P, self._T, self.isCoal, self.HHV)
 
         self._compound_mfrs = self._compound_mfrs * \
             (1.0 - fraction_to_subtract)
-- 
2.43.0


From f678103e00cabf7e46c24208f17323fff7d465bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 43/73] fix: calculate the enthalpy of coal packages like that
 of coal streams

---
 auxi/modelling/process/materials/thermo.py | 71 ++++++++++++----------
 1 file changed, 39 insertions(+), 32 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 02ec7ba..f249224 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -589,7 +589,7 @@ class MaterialPackage(Object):
         """
 
         if self.isCoal:
-            return self._calculate_Hfr_coal(T)
+            return self._calculate_H_coal(T)
 
         H = 0.0
         for compound in self.material.compounds:
@@ -600,10 +600,9 @@ class MaterialPackage(Object):
 
     def _calculate_DH298_coal(self):
         """
-        Calculate the enthalpy of formation of the package at the specified temperature, in
-        case the material is coal.
+        Calculate the enthalpy of formation of the dry-ash-free (daf) component of the coal.
 
-        :returns: [kWh/kg] enthalpy of formation of daf coal
+        :returns: [kWh/kg daf] enthalpy of formation of daf coal
         """
 
         m_C = 0  # kg
@@ -616,23 +615,26 @@ class MaterialPackage(Object):
         Hin = 0.0  # kWh
         for compound in self.material.compounds:
             index = self.material.get_compound_index(compound)
-            if stoich.element_mass_fraction(compound, 'C') == 1.0:
+            formula = compound.split('[')[0]
+            if stoich.element_mass_fraction(formula, 'C') == 1.0:
                 m_C += self._compound_masses[index]
-                Hin = thermo.H(compound, T, self._compound_masses[index])
-            elif stoich.element_mass_fraction(compound, 'H') == 1.0:
+                Hin += thermo.H(compound, T, self._compound_masses[index])
+            elif stoich.element_mass_fraction(formula, 'H') == 1.0:
                 m_H += self._compound_masses[index]
-                Hin = thermo.H(compound, T, self._compound_masses[index])
-            elif stoich.element_mass_fraction(compound, 'O') == 1.0:
+                Hin += thermo.H(compound, T, self._compound_masses[index])
+            elif stoich.element_mass_fraction(formula, 'O') == 1.0:
                 m_O += self._compound_masses[index]
-                Hin = thermo.H(compound, T, self._compound_masses[index])
-            elif stoich.element_mass_fraction(compound, 'N') == 1.0:
+                Hin += thermo.H(compound, T, self._compound_masses[index])
+            elif stoich.element_mass_fraction(formula, 'N') == 1.0:
                 m_N += self._compound_masses[index]
-                Hin = thermo.H(compound, T, self._compound_masses[index])
-            elif stoich.element_mass_fraction(compound, 'S') == 1.0:
+                Hin += thermo.H(compound, T, self._compound_masses[index])
+            elif stoich.element_mass_fraction(formula, 'S') == 1.0:
                 m_S += self._compound_masses[index]
-                Hin = thermo.H(compound, T, self._compound_masses[index])
+                Hin += thermo.H(compound, T, self._compound_masses[index])
 
         m_total = m_C + m_H + m_O + m_N + m_S  # kg
+        if m_total == 0.0:
+            return 0.0
 
         Hout = 0.0  # kWh
         Hout += thermo.H('CO2[G]', T, cc(m_C, 'C', 'CO2', 'C'))
@@ -640,25 +642,27 @@ class MaterialPackage(Object):
         Hout += thermo.H('O2[G]', T, m_O)
         Hout += thermo.H('N2[G]', T, m_N)
         Hout += thermo.H('SO2[G]', T, cc(m_S, 'S', 'SO2', 'S'))
+        Hout /= m_total
 
         if self.HHV is None:
             # If no HHV is specified, calculate it from the proximate assay
             # using C-H-O-N-S.
-            HHV = Hout - Hin / m_total  # kWh/kg
+            HHV = Hin / m_total - Hout  # kWh/kg daf
         else:
-            # If an HHV is specified, convert it from MJ/kg to kWh/kg.
-            HHV = self.HHV / 3.6  # kWh/kg
+            # If an HHV is specified, convert it from MJ/kg coal to kWh/kg daf.
+            HHV = self.HHV / 3.6  # kWh/kg coal
+            HHV *= self.mass / m_total  # kWh/kg daf
 
-        return HHV + Hout / m_total  # kWh/kg
+        return HHV + Hout  # kWh/kg daf
 
     def _calculate_H_coal(self, T):
         """
-        Calculate the enthalpy of the package at the specified temperature, in
-        case the material is coal.
+        Calculate the enthalpy of the package at the specified temperature,
+        in the case of it being coal.
 
-        :param T: [°C] temperature
+        :param T: Temperature. [°C]
 
-        :returns: [kWh] enthalpy
+        :returns: Enthalpy. [kWh]
         """
 
         m_C = 0  # kg
@@ -667,24 +671,27 @@ class MaterialPackage(Object):
         m_N = 0  # kg
         m_S = 0  # kg
 
-        H = 0.0  # kWh/h
+        H = 0.0  # kWh
         for compound in self.material.compounds:
             index = self.material.get_compound_index(compound)
-            if stoich.element_mass_fraction(compound, 'C') == 1.0:
+            formula = compound.split('[')[0]
+            if stoich.element_mass_fraction(formula, 'C') == 1.0:
                 m_C += self._compound_masses[index]
-            elif stoich.element_mass_fraction(compound, 'H') == 1.0:
+            elif stoich.element_mass_fraction(formula, 'H') == 1.0:
                 m_H += self._compound_masses[index]
-            elif stoich.element_mass_fraction(compound, 'O') == 1.0:
+            elif stoich.element_mass_fraction(formula, 'O') == 1.0:
                 m_O += self._compound_masses[index]
-            elif stoich.element_mass_fraction(compound, 'N') == 1.0:
+            elif stoich.element_mass_fraction(formula, 'N') == 1.0:
                 m_N += self._compound_masses[index]
-            elif stoich.element_mass_fraction(compound, 'S') == 1.0:
+            elif stoich.element_mass_fraction(formula, 'S') == 1.0:
                 m_S += self._compound_masses[index]
             else:
                 dH = thermo.H(compound, T, self._compound_masses[index])
                 H += dH
 
-        m_total = y_C + y_H + y_O + y_N + y_S  # kg/h
+        m_total = m_C + m_H + m_O + m_N + m_S  # kg
+        if m_total == 0.0:
+            return H
         y_C = m_C / m_total
         y_H = m_H / m_total
         y_O = m_O / m_total
@@ -692,11 +699,11 @@ class MaterialPackage(Object):
         y_S = m_S / m_total
 
         hmodel = coals.DafHTy()
-        H = hmodel.calculate(T=T+273.15, y_C=y_C, y_H=y_H, y_O=y_O, y_N=y_N,
-                             y_S=y_S) / 3.6e6  # kWh/kg
+        HT = hmodel.calculate(T=T+273.15, y_C=y_C, y_H=y_H, y_O=y_O, y_N=y_N,
+                              y_S=y_S) / 3.6e6  # kWh/kg
         H298 = hmodel.calculate(T=298.15, y_C=y_C, y_H=y_H, y_O=y_O, y_N=y_N,
                                 y_S=y_S) / 3.6e6  # kWh/kg
-        Hdaf = H - H298 + self._DH298  # kWh/kg
+        Hdaf = HT - H298 + self._DH298  # kWh/kg
         Hdaf *= m_total  # kWh
 
         H += Hdaf
-- 
2.43.0


From be820a21be3c69276ccf7763106b1340a358e394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 44/73] fix: adjust the heating value of coal packages for
 added and extracted compounds

---
 auxi/modelling/process/materials/thermo.py | 57 ++++++++++++++++++++--
 1 file changed, 53 insertions(+), 4 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index f249224..990b204 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -400,12 +400,10 @@ class MaterialPackage(Object):
         self.material = material
         self._P = P
         self._T = T
+        self._compound_masses = compound_masses
         self.isCoal = isCoal
         self.HHV = HHV
-        self._compound_masses = compound_masses
         if self.mass > 0.0:
-            if self.isCoal:
-                self._DH298 = self._calculate_DH298_coal()
             self._H = self._calculate_H(T)
         else:
             self._H = 0.0
@@ -528,6 +526,7 @@ class MaterialPackage(Object):
             result = self.clone()
             result._compound_masses[index] = result._compound_masses[index] + \
                 mass
+            result._update_HHV(compound, mass)
             result._H += enthalpy
             result._P = self._P
             return result
@@ -545,6 +544,7 @@ class MaterialPackage(Object):
             result = self * 1.0
             result._compound_masses[index] = result._compound_masses[index] + \
                 mass
+            result._update_HHV(compound, mass)
             result.H = self._H + enthalpy
             result._P = self._P
             return result
@@ -834,6 +834,29 @@ class MaterialPackage(Object):
         self._T = T
         self._H = self._calculate_H(T)
 
+    @property
+    def HHV(self):
+        """
+        Get the higher heating value of the package.
+
+        :returns: MJ/kg coal, higher heating value
+        """
+
+        return self._HHV
+
+    @HHV.setter
+    def HHV(self, HHV):
+        """
+        Set the higher heating value of the package to the specified value, and
+        recalculate the formation enthalpy of the daf coal.
+
+        :param HHV: MJ/kg coal, higher heating value
+        """
+
+        self._HHV = HHV  # MJ/kg coal
+        if self.isCoal:
+            self._DH298 = self._calculate_DH298_coal()  # kWh/kg daf
+
     @property
     def P(self):
         """Determine the pressure of the package.
@@ -1051,15 +1074,40 @@ class MaterialPackage(Object):
             return result
 
         index = self.material.get_compound_index(compound)
-        result._compound_masses[index] = self._compound_masses[index]
+        mass = self._compound_masses[index]
+
+        result._compound_masses[index] = mass
         result.T = self.T
         result.P = self.P
 
         self._compound_masses[index] = 0.0
+        self._update_HHV(compound, -mass)
         self.T = self.T
 
         return result
 
+    def _update_HHV(self, compound, mass):
+        if self.isCoal:
+            HHV = self.HHV
+            if HHV is not None and self.mass > 0.0:
+                HHV *= self.mass - mass  # MJ
+
+                # Only the elements of the daf coal burn.
+                if any(stoich.element_mass_fraction(compound, e) == 1.0
+                       for e in 'CHONS'):
+                    dH = thermo.H(compound, 25, mass)  # kWh
+                    dH -= thermo.H('CO2[G]', 25,
+                                   cc(mass, compound, 'CO2', 'C'))  # kWh
+                    dH -= thermo.H('H2O[L]', 25,
+                                   cc(mass, compound, 'H2O', 'H'))  # kWh
+                    dH -= thermo.H('SO2[G]', 25,
+                                   cc(mass, compound, 'SO2', 'S'))  # kWh
+                    HHV += dH * 3.6  # MJ
+
+                HHV /= self.mass  # MJ/kg coal
+
+            self.HHV = HHV
+
     def _extract_compound_mass(self, compound, mass):
         if compound not in self.material.compounds:
             return self.material.create_package()
@@ -1069,6 +1117,7 @@ class MaterialPackage(Object):
             raise Exception("Invalid extraction operation. Cannot extract a \
                 compound mass larger than what the package contains.")
         self._compound_masses[index] = self._compound_masses[index] - mass
+        self._update_HHV(compound, -mass)
         self.T = self.T
 
         result = self.material.create_package(P=self._P, T=self._T)
-- 
2.43.0


From ce7e99c50c7a18542e9d4e876e0322fa5e97139b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 45/73] fix: keep coal coal when scaling, extracting from and
 adding coal packages

---
 auxi/modelling/process/materials/thermo.py | 24 +++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 990b204..3410d1d 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -492,9 +492,26 @@ class MaterialPackage(Object):
         # Add another package.
         if type(other) is MaterialPackage:
             if self.material == other.material:  # Packages of same material.
+                if self.isCoal or other.isCoal:
+                    if self.HHV is None and other.HHV is None or \
+                       self.mass + other.mass == 0.0:
+                        HHV = self.HHV
+                    else:
+                        HHV = 0
+                        if self.HHV:
+                            HHV += self.HHV * self.mass
+                        if other.HHV:
+                            HHV += other.HHV * other.mass
+                        HHV /= self.mass + other.mass
+                    isCoal = True
+                else:
+                    isCoal = False
+                    HHV = None
+
                 result = MaterialPackage(self.material,
                                          self._compound_masses +
-                                         other._compound_masses)
+                                         other._compound_masses,
+                                         isCoal=isCoal, HHV=HHV)
                 result.H = self._H + other._H
                 result.P = self.P
                 return result
@@ -572,7 +589,8 @@ class MaterialPackage(Object):
                 raise Exception("Invalid multiplication operation. Cannot "
                                 "multiply package with negative number.")
             result = MaterialPackage(self.material, self._compound_masses *
-                                     scalar, self._P, self._T)
+                                     scalar, self._P, self._T, self.isCoal,
+                                     self.HHV)
             return result
 
         # If not one of the above, it must be an invalid argument.
@@ -1059,7 +1077,7 @@ class MaterialPackage(Object):
         fraction_to_subtract = mass / self.mass
         result = MaterialPackage(
             self.material, self._compound_masses *
-            fraction_to_subtract, self._P, self._T)
+            fraction_to_subtract, self._P, self._T, self.isCoal, self.HHV)
 
         self._compound_masses = self._compound_masses * \
             (1.0 - fraction_to_subtract)
-- 
2.43.0


From ec4d6744e402635fe27c2b358a606d47a439d2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 46/73] fix: write objects that are printed as tables so that
 they can be read

---
 auxi/core/objects.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/auxi/core/objects.py b/auxi/core/objects.py
index ee2cf43..e113dc2 100644
--- a/auxi/core/objects.py
+++ b/auxi/core/objects.py
@@ -20,6 +20,9 @@ class Object(object):
     """
 
     def __str__(self):
+        return self._to_json_()
+
+    def _to_json_(self):
         o = json.loads(jsonpickle.encode(self))
         # The order of the keys has to stay as encoded: references to shared
         # objects are numbered in that order.
@@ -37,7 +40,7 @@ class Object(object):
 
     def write(self, path):
         with open(path, 'w') as file:
-            file.write(str(self))
+            file.write(self._to_json_())
 
     @staticmethod
     def read(path):
-- 
2.43.0


From 74aa4cd2fd16e97fa2e347042176247523f8a114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:48 +0000
Subject: [PATCH 47/73] fix: calculate the Rayleigh number

---
 auxi/tools/transportphenomena/dimensionlessquantities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/auxi/tools/transportphenomena/dimensionlessquantities.py b/auxi/tools/transportphenomena/dimensionlessquantities.py
index de85172..5063e07 100644
--- a/auxi/tools/transportphenomena/dimensionlessquantities.py
+++ b/auxi/tools/transportphenomena/dimensionlessquantities.py
@@ -4,6 +4,8 @@ This module provides functions to calculate dimensionless quantities used when
 doing transport phenomena calculations.
 """
 
+from auxi.tools.physicalconstants import g
+
 
 # TODO: Add mathematical formula to each function. See Gr for example.
 # TODO: Test to make sure that math formulae appear correctly on readthedocs.
@@ -99,7 +101,7 @@ def Ra(L: float, Ts: float, Tf: float, alpha: float, beta: float, nu: float
         * bluff body: diameter
     """
 
-    return g * beta * (Ts - Tinf) * L**3.0 / (nu * alpha)
+    return g * beta * (Ts - Tf) * L**3.0 / (nu * alpha)
 
 
 def Nu(L: float, h: float, k: float) -> float:
-- 
2.43.0


From 517d19ee2611d2a51eabbaa04523fe868de8df2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:48 +0000
Subject: [PATCH 48/73] fix: calculate natural convection at cold surfaces

---
 .../transportphenomena/heattransfer/naturalconvection.py   | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
index ead2065..0c0a7ff 100644
--- a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
+++ b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
@@ -318,10 +318,13 @@ class IsothermalFlatSurface(EmpiricalCorrelation):
 
         Gr = dq.Gr(L, Ts, Tf, beta, nu, g)
         Pr = dq.Pr(nu, alpha)
-        Ra = Gr * Pr
+        Ra = abs(Gr * Pr)
+
+        # A cold surface behaves like the hot surface that is its mirror image.
+        theta_eq = theta if Ts > Tf else -theta
 
         eq = [self.equation_dict[r]
-              for r in self.regions if r.contains_point(theta, Ra)][0]
+              for r in self.regions if r.contains_point(theta_eq, Ra)][0]
 
         return eq(self, Ra, Pr)
 
-- 
2.43.0


From e1ebe82a1d232d098e148e0f1442689bc6c0aade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:48 +0000
Subject: [PATCH 49/73] fix: calculate natural convection at 88 degrees and low
 Ra

---
 auxi/tools/transportphenomena/heattransfer/naturalconvection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
index 0c0a7ff..3b38dbc 100644
--- a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
+++ b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
@@ -244,7 +244,7 @@ class IsothermalFlatSurface(EmpiricalCorrelation):
         region = self.Region("r17", 0, False, 88, False, 11, False, None,
                              False)
         eq_dict[region] = ifs._Nu_x__8_27
-        region = self.Region("r18", 88, False, 90, True, None, False, 6, False)
+        region = self.Region("r18", 88, True, 90, True, None, False, 6, False)
         eq_dict[region] = ifs._Nu_x__8_38
         region = self.Region("r19", 88, True, 90, True, 6, True, 9, True,
                              "In_Eq_Region")
-- 
2.43.0


From 47ccbcfa39683f36da0341a74342d76f20d0a991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:48 +0000
Subject: [PATCH 50/73] fix: select the natural convection equation by the
 logarithm of Ra

---
 .../heattransfer/naturalconvection.py                  | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
index 3b38dbc..19ceb59 100644
--- a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
+++ b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
@@ -3,7 +3,7 @@ This module provides tools to calculate natural convection heat transfer
 coefficients.
 """
 
-from math import radians, cos
+from math import radians, cos, inf, log10
 from matplotlib import pyplot as plt
 from matplotlib.patches import Rectangle
 
@@ -45,7 +45,8 @@ class IsothermalFlatSurface(EmpiricalCorrelation):
 
     class Region(NamedObject):
         """
-        Defines a region in the 2D Ra-theta coordinate system. A region is used
+        Defines a region in the 2D log10(Ra)-theta coordinate system, with the
+        Ra values being base 10 logarithms of the number. A region is used
         to determine which equation should be used to determine the isothermal
         flat surface.
 
@@ -323,8 +324,11 @@ class IsothermalFlatSurface(EmpiricalCorrelation):
         # A cold surface behaves like the hot surface that is its mirror image.
         theta_eq = theta if Ts > Tf else -theta
 
+        # The regions are delimited by the base 10 logarithm of Ra.
+        Ra_eq = log10(Ra) if Ra > 0.0 else -inf
+
         eq = [self.equation_dict[r]
-              for r in self.regions if r.contains_point(theta_eq, Ra)][0]
+              for r in self.regions if r.contains_point(theta_eq, Ra_eq)][0]
 
         return eq(self, Ra, Pr)
 
-- 
2.43.0


From 6b4976848821e2c8629111b1ab489c6ca61e0bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:48 +0000
Subject: [PATCH 51/73] fix: leave the composition passed to the Riboud model
 as it is

---
 auxi/tools/materialphysicalproperties/slags.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/auxi/tools/materialphysicalproperties/slags.py b/auxi/tools/materialphysicalproperties/slags.py
index 89c76a9..f55e3a8 100644
--- a/auxi/tools/materialphysicalproperties/slags.py
+++ b/auxi/tools/materialphysicalproperties/slags.py
@@ -169,6 +169,7 @@ class RiboudViscosityTx(Model):
                          compounds_caf2 + compounds_na2o)
 
         # convert compounds with two cations to single cation equivalents
+        x = dict(x)
         if 'P2O5' in x:
             x['PO2.5'] = 2.0 * x['P2O5']
         if 'Fe2O3' in x:
-- 
2.43.0


From a2d8e13d04225995087da6c2200aa5f150b6ec65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:48 +0000
Subject: [PATCH 52/73] fix: solve the Colebrook equation

---
 .../transportphenomena/fluidflow/pressuredrop.py     | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/auxi/tools/transportphenomena/fluidflow/pressuredrop.py b/auxi/tools/transportphenomena/fluidflow/pressuredrop.py
index bb6b30c..12fcb01 100644
--- a/auxi/tools/transportphenomena/fluidflow/pressuredrop.py
+++ b/auxi/tools/transportphenomena/fluidflow/pressuredrop.py
@@ -91,20 +91,20 @@ def f_tr_Colebrook(Re_D, ɛ, D):
     :return: Friction factor.
     """
 
-    def cb(f, Re_D, ɛ, D):
+    def cb(s, Re_D, ɛ, D):
         """
-        Calculate the Colebrook function in the form that the Darcy friction
-        factor roots can be calculated.
+        Calculate the Colebrook function in the form that the roots of
+        1/sqrt(f), f being the Darcy friction factor, can be calculated.
 
         Source: cengel2018, Eq. 8-74.
         """
         term1 = ɛ / D / 3.7
-        term2 = 2.51 / Re_D / sqrt(f)
+        term2 = 2.51 / Re_D * s[0]
 
-        return -2 * log10(term1 + term2) - 1 / sqrt(f)
+        return -2 * log10(term1 + term2) - s[0]
 
     # find the roots of the Colebrook equation
-    return root(cb, 0.02, args=(Re_D, ɛ, D)).x[0]
+    return 1 / root(cb, 1 / sqrt(0.02), args=(Re_D, ɛ, D)).x[0]**2
 
 
 def D_h(A, P):
-- 
2.43.0


From 5aaa20a4bcd2a0ea8f5027c5ce8c3a3757781d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:48 +0000
Subject: [PATCH 53/73] fix: construct a material without property models, the
 default

---
 auxi/modelling/process/materials/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/auxi/modelling/process/materials/core.py b/auxi/modelling/process/materials/core.py
index 89970f6..6522733 100644
--- a/auxi/modelling/process/materials/core.py
+++ b/auxi/modelling/process/materials/core.py
@@ -35,6 +35,9 @@ class Material(NamedObject):
         self.mstate = state_of_matter
         """State of matter."""
 
+        if property_models is None:
+            property_models = {}
+
         if 'alpha' in property_models:
             self.alpha = property_models['alpha']
 
-- 
2.43.0


From 4e1cd03e213fddeb81eb1c481176089733486b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 54/73] fix: validate the state passed to gas mixture models

---
 auxi/tools/materialphysicalproperties/gases.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/auxi/tools/materialphysicalproperties/gases.py b/auxi/tools/materialphysicalproperties/gases.py
index 4844129..6b2524f 100644
--- a/auxi/tools/materialphysicalproperties/gases.py
+++ b/auxi/tools/materialphysicalproperties/gases.py
@@ -444,6 +444,8 @@ class WilkeMuTx(Model):
 
             return result
 
+        super().calculate(**state)
+
         T = state['T']
         x = state['x']
 
@@ -532,6 +534,8 @@ class HerningZippererMuTx(Model):
         that are used to describe the state of the material.
         """
 
+        super().calculate(**state)
+
         T = state['T']
         x = state['x']
 
@@ -613,6 +617,8 @@ class IdealCpTx(Model):
         that are used to describe the state of the material.
         """
 
+        super().calculate(**state)
+
         T = state["T"]
         x = state["x"]
 
-- 
2.43.0


From 3a1b28346db49848bfd050defcce27fc670e86d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 55/73] fix: validate the state passed to slag models

---
 .../tools/materialphysicalproperties/slags.py | 22 +++++++++----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/auxi/tools/materialphysicalproperties/slags.py b/auxi/tools/materialphysicalproperties/slags.py
index f55e3a8..07a3a2b 100644
--- a/auxi/tools/materialphysicalproperties/slags.py
+++ b/auxi/tools/materialphysicalproperties/slags.py
@@ -55,9 +55,10 @@ class UrbainViscosityTx(Model):
         that are used to describe the state of the material.
         """
 
-        T = state['T']
-        x = state['x']
+        super().calculate(**state)
+        return self._calculate(state['T'], state['x'])
 
+    def _calculate(self, T, x):
         # normalise mole fractions
         x_total = sum(x.values())
         x = {compound: x[compound]/x_total for compound in x.keys()}
@@ -122,10 +123,8 @@ class UrbainViscosityTy(UrbainViscosityTx):
         that are used to describe the state of the material.
         """
 
-        T = state['T']
-        y = state['y']
-        x = amount_fractions(y)
-        return super().calculate(T=T, x=x)
+        Model.calculate(self, **state)
+        return self._calculate(state['T'], amount_fractions(state['y']))
 
 
 class RiboudViscosityTx(Model):
@@ -156,9 +155,10 @@ class RiboudViscosityTx(Model):
         that are used to describe the state of the material.
         """
 
-        T = state['T']
-        x = state['x']
+        super().calculate(**state)
+        return self._calculate(state['T'], state['x'])
 
+    def _calculate(self, T, x):
         # create the slag constituent categories
         compounds_sio2 = ['SiO2', 'PO2.5', 'TiO2', 'ZrO2']
         compounds_cao = ['CaO', 'MgO', 'FeO1.5', 'FeO', 'MnO', 'BO1.5']
@@ -225,10 +225,8 @@ class RiboudViscosityTy(RiboudViscosityTx):
         that are used to describe the state of the material.
         """
 
-        T = state['T']
-        y = state['y']
-        x = amount_fractions(y)
-        return super().calculate(T=T, x=x)
+        Model.calculate(self, **state)
+        return self._calculate(state['T'], amount_fractions(state['y']))
 
 
 ds1 = DataSet(_path('data/dataset-slag-slagatlas1995.csv'))
-- 
2.43.0


From f504328ebae0f0716953a78348c7714693552020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 56/73] fix: validate the state passed to coal models

---
 auxi/tools/materialphysicalproperties/coals.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/auxi/tools/materialphysicalproperties/coals.py b/auxi/tools/materialphysicalproperties/coals.py
index f482cca..ac320ac 100644
--- a/auxi/tools/materialphysicalproperties/coals.py
+++ b/auxi/tools/materialphysicalproperties/coals.py
@@ -109,6 +109,8 @@ class DafCpTy(DafThermoTy):
         that are used to describe the state of the material.
         """
 
+        super().calculate(**state)
+
         T = state['T']
         y_C = state['y_C']
         y_H = state['y_H']
@@ -158,6 +160,8 @@ class DafHTy(DafThermoTy):
         that are used to describe the state of the material.
         """
 
+        super().calculate(**state)
+
         T = state['T']
         y_C = state['y_C']
         y_H = state['y_H']
-- 
2.43.0


From 17053e09903d00a0ff47cf2fee8388f0db8d0434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:08 +0000
Subject: [PATCH 57/73] fix: provide all the entries of a bibliography

---
 auxi/core/bibliography.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/auxi/core/bibliography.py b/auxi/core/bibliography.py
index b637ba8..00d17fa 100644
--- a/auxi/core/bibliography.py
+++ b/auxi/core/bibliography.py
@@ -5,6 +5,7 @@ This package provides auxi's bibliography, and tools to interact with it.
 
 
 import bibtexparser
+import bibtexparser.bparser
 from os import path
 
 
@@ -30,7 +31,10 @@ class Database(object):
         with open(path) as file:
             bibtex_str = file.read()
 
-        bib_database = bibtexparser.loads(bibtex_str)
+        # entries like reports and web pages are not standard bibtex types
+        parser = bibtexparser.bparser.BibTexParser(
+            ignore_nonstandard_types=False)
+        bib_database = bibtexparser.loads(bibtex_str, parser)
         self._dict = bib_database.get_entry_dict()
 
     def __str__(self):
-- 
2.43.0


From f04a8f2e0595c07860d6a7eed7543867e08c7055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:08 +0000
Subject: [PATCH 58/73] fix: add the single cation equivalents to those of the
 composition

---
 auxi/tools/materialphysicalproperties/slags.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/auxi/tools/materialphysicalproperties/slags.py b/auxi/tools/materialphysicalproperties/slags.py
index 07a3a2b..8092137 100644
--- a/auxi/tools/materialphysicalproperties/slags.py
+++ b/auxi/tools/materialphysicalproperties/slags.py
@@ -171,11 +171,11 @@ class RiboudViscosityTx(Model):
         # convert compounds with two cations to single cation equivalents
         x = dict(x)
         if 'P2O5' in x:
-            x['PO2.5'] = 2.0 * x['P2O5']
+            x['PO2.5'] = x.get('PO2.5', 0.0) + 2.0 * x['P2O5']
         if 'Fe2O3' in x:
-            x['FeO1.5'] = 2.0 * x['Fe2O3']
+            x['FeO1.5'] = x.get('FeO1.5', 0.0) + 2.0 * x['Fe2O3']
         if 'B2O3' in x:
-            x['BO1.5'] = 2.0 * x['B2O3']
+            x['BO1.5'] = x.get('BO1.5', 0.0) + 2.0 * x['B2O3']
 
         # normalise mole fractions, use only compounds in compounds_all
         x_total = sum([x.get(c, 0.0) for c in compounds_all])
-- 
2.43.0


From 3c719b6857c6eb5ac9425d383dfc62af6c1c1b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:08 +0000
Subject: [PATCH 59/73] fix: write the exponents of the air data set with
 hyphens, so that they are numbers

---
 .../data/dataset-air-lienhard2018.csv                           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/tools/materialphysicalproperties/data/dataset-air-lienhard2018.csv b/auxi/tools/materialphysicalproperties/data/dataset-air-lienhard2018.csv
index ee39447..8c4de2d 100644
--- a/auxi/tools/materialphysicalproperties/data/dataset-air-lienhard2018.csv
+++ b/auxi/tools/materialphysicalproperties/data/dataset-air-lienhard2018.csv
@@ -5,7 +5,7 @@ Temperature,Density,Heat Capacity,Dynamic Viscosity,Kinematic Viscosity,Thermal
 T,\rho,C_p,\mu,\nu,k,\alpha,Pr
 K,kg/m3,J/kg/K,kg/m/s,m2/s,W/m/K,m2/s,None
 T,rho,Cp,mu,nu,k,alpha,Pr
-100,3.605,1039,0.711E-5,0.197E−5,0.00941,0.251E−5,0.784
+100,3.605,1039,0.711E-5,0.197E-5,0.00941,0.251E-5,0.784
 150,2.368,1012,1.035E-05,4.37E-06,0.01406,5.87E-06,0.745
 200,1.769,1007,1.333E-05,7.54E-06,0.01836,1.031E-05,0.731
 250,1.412,1006,1.606E-05,1.137E-05,0.02241,1.578E-05,0.721
-- 
2.43.0


From 786ed0f41b924ed499c1c9f583935f23e99124b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:28 +0000
Subject: [PATCH 60/73] fix: an activity whose start or end is removed keeps no
 schedule of an earlier run

---
 auxi/modelling/business/structure.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/business/structure.py b/auxi/modelling/business/structure.py
index 7028b78..3d2e2b6 100644
--- a/auxi/modelling/business/structure.py
+++ b/auxi/modelling/business/structure.py
@@ -88,9 +88,12 @@ class Activity(NamedObject):
           requested to be run for.
         """
 
+        # Forget the schedule of an earlier run.
+        self.start_period_ix = -1
+        self.period_count = -1
+
         if self.start_datetime != datetime.min:
             # Set the Start period index
-            self.start_period_ix = -1
             if self.start_datetime > clock.get_datetime_at_period_ix(0):
                 # Does not start if no period in the loop below follows it.
                 self.start_period_ix = period_count
@@ -102,7 +105,6 @@ class Activity(NamedObject):
             self.start_period_ix = 0
         if self.end_datetime != datetime.max:
             # Set the Start date
-            self.period_count = -1
             for i in range(0, period_count):
                 if clock.get_datetime_at_period_ix(i) > self.end_datetime:
                     self.period_count = max(i - self.start_period_ix, 0)
-- 
2.43.0


From 232a216c6e1286eb1ff380829f790e135746895e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:00 +0000
Subject: [PATCH 61/73] fix: a loan over no months is never made instead of
 failing

---
 auxi/modelling/business/basic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/auxi/modelling/business/basic.py b/auxi/modelling/business/basic.py
index aabd13f..6ad2d5d 100644
--- a/auxi/modelling/business/basic.py
+++ b/auxi/modelling/business/basic.py
@@ -192,6 +192,10 @@ class BasicLoanActivity(Activity):
         self._amount_left = amount
 
     def _update_monthly_payment_(self):
+        if self.duration <= 0:
+            # The loan is never made.
+            self._monthly_payment = 0.0
+            return
         int_rate = self._monthly_interest_rate
         if int_rate == 0:
             self._monthly_payment = self.amount / self.duration
-- 
2.43.0


From 2ca11feafec666c55f343faefe486500d173d07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:00 +0000
Subject: [PATCH 62/73] fix: the payment and end of a loan follow a change of
 its duration

---
 auxi/modelling/business/basic.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/business/basic.py b/auxi/modelling/business/basic.py
index 6ad2d5d..93cfc50 100644
--- a/auxi/modelling/business/basic.py
+++ b/auxi/modelling/business/basic.py
@@ -185,7 +185,7 @@ class BasicLoanActivity(Activity):
         self.loan_account = loan_account
         self.interest_account = interest_account
         self._amount = amount
-        self.duration = duration
+        self._duration = duration
         self.interest_rate = interest_rate
 
         self._months_executed = 0
@@ -213,6 +213,17 @@ class BasicLoanActivity(Activity):
         self._amount = value
         self._update_monthly_payment_()
 
+    @property
+    def duration(self):
+        return self._duration
+
+    @duration.setter
+    def duration(self, value):
+        self._duration = value
+        self.end_datetime = self.start_datetime + relativedelta(
+            months=value+1)
+        self._update_monthly_payment_()
+
     @property
     def interest_rate(self):
         return self._interest_rate
-- 
2.43.0


From 1351eb6c34288d0f280be72b06593e7216fe0be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:32 +0000
Subject: [PATCH 63/73] fix: the Newtonian constant of gravitation is that of
 nist2018

---
 auxi/tools/physicalconstants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/tools/physicalconstants.py b/auxi/tools/physicalconstants.py
index 9bb8f03..813ce21 100644
--- a/auxi/tools/physicalconstants.py
+++ b/auxi/tools/physicalconstants.py
@@ -20,7 +20,7 @@ __status__ = 'Planning'
 c = 299792458.0
 """[m·s-1] speed of light in vacuum, from nist2018-constants"""
 
-G = 6.67403E-11
+G = 6.67430E-11
 """[m3.kg-1.s-2] Newtonian constant of gravitation, from nist2018-constants"""
 
 h = 6.626070150E-34
-- 
2.43.0


From a0714e409ee16d8ada2cbad69ad2ba50c4a27ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:32 +0000
Subject: [PATCH 64/73] fix: the atomic mass constant agrees with Avogadro's
 number

---
 auxi/tools/physicalconstants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/tools/physicalconstants.py b/auxi/tools/physicalconstants.py
index 813ce21..ef177c1 100644
--- a/auxi/tools/physicalconstants.py
+++ b/auxi/tools/physicalconstants.py
@@ -32,8 +32,8 @@ h_bar = 1.054571817E-34
 
 # Physico-chemical Constants
 
-m_u = 1.660538921E-27
-"""[kg] atomic mass constant"""
+m_u = 1.66053906660E-27
+"""[kg] atomic mass constant, from nist2018-constants"""
 
 N_A = 6.02214076E23
 """[mol-1] Avogadro's number, from nist2018-constants"""
-- 
2.43.0


From 9e33bb805ec70cbb2a64d379ebb1ab68b6e51a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:32 +0000
Subject: [PATCH 65/73] fix: plots of gas mixtures stay within the range of
 each data set

---
 .../tools/materialphysicalproperties/gases.py | 33 +++++--------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/auxi/tools/materialphysicalproperties/gases.py b/auxi/tools/materialphysicalproperties/gases.py
index 6b2524f..4401b69 100644
--- a/auxi/tools/materialphysicalproperties/gases.py
+++ b/auxi/tools/materialphysicalproperties/gases.py
@@ -472,20 +472,15 @@ class WilkeMuTx(Model):
 
     def plot(self, xs, datasets, path, show=False):
         with PdfPages(path) as pdf:
-            T_min = 1.0e100
-            T_max = -1.0e100
-
             for compound, ds in datasets.items():
                 T_vals = ds.data['T'].tolist()
                 y_vals = ds.data[self.symbol].tolist()
                 plt.plot(
                     T_vals, y_vals, "o", alpha=0.4, markersize=4, label=ds.name)
 
-                T_min = min(min(T_vals), T_min)
-                T_max = max(max(T_vals), T_max)
-
-                # T_vals2 = np.linspace(T_min, T_max, 80)
-                T_vals2 = np.linspace(T_min, 1000.0, 80)
+                # the models are limited to the range of the data
+                T_vals2 = np.linspace(
+                    min(T_vals), min(max(T_vals), 1000.0), 80)
                 fx = [self(T=T, x=xs[compound]) for T in T_vals2]
                 plt.plot(T_vals2, fx, linewidth=0.3, label=f"{compound} model")
 
@@ -557,20 +552,15 @@ class HerningZippererMuTx(Model):
 
     def plot(self, xs, datasets, path, show=False):
         with PdfPages(path) as pdf:
-            T_min = 1.0e100
-            T_max = -1.0e100
-
             for compound, ds in datasets.items():
                 T_vals = ds.data['T'].tolist()
                 y_vals = ds.data[self.symbol].tolist()
                 plt.plot(
                     T_vals, y_vals, "o", alpha=0.4, markersize=4, label=ds.name)
 
-                T_min = min(min(T_vals), T_min)
-                T_max = max(max(T_vals), T_max)
-
-                # T_vals2 = np.linspace(T_min, T_max, 80)
-                T_vals2 = np.linspace(T_min, 1000.0, 80)
+                # the models are limited to the range of the data
+                T_vals2 = np.linspace(
+                    min(T_vals), min(max(T_vals), 1000.0), 80)
                 fx = [self(T=T, x=xs[compound]) for T in T_vals2]
                 plt.plot(T_vals2, fx, linewidth=0.3, label=f"{compound} model")
 
@@ -640,20 +630,15 @@ class IdealCpTx(Model):
 
     def plot(self, xs, datasets, path, show=False):
         with PdfPages(path) as pdf:
-            T_min = 1.0e100
-            T_max = -1.0e100
-
             for compound, ds in datasets.items():
                 T_vals = ds.data["T"].tolist()
                 y_vals = ds.data[self.symbol].tolist()
                 plt.plot(
                     T_vals, y_vals, "o", alpha=0.4, markersize=4, label=ds.name)
 
-                T_min = min(min(T_vals), T_min)
-                T_max = max(max(T_vals), T_max)
-
-                # T_vals2 = np.linspace(T_min, T_max, 80)
-                T_vals2 = np.linspace(T_min, 1000.0, 80)
+                # the models are limited to the range of the data
+                T_vals2 = np.linspace(
+                    min(T_vals), min(max(T_vals), 1000.0), 80)
                 fx = [self(T=T, x=xs[compound]) for T in T_vals2]
                 plt.plot(T_vals2, fx, linewidth=0.3, label=f"{compound} model")
 
-- 
2.43.0


From cf760acab4a76ae34e0831a6ba2e24f1d9e6b090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:32 +0000
Subject: [PATCH 66/73] fix: a region without limits of Ra can be plotted

---
 .../transportphenomena/heattransfer/naturalconvection.py   | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
index 19ceb59..c5d0ece 100644
--- a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
+++ b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
@@ -162,12 +162,9 @@ class IsothermalFlatSurface(EmpiricalCorrelation):
             Ra_max_plot = self.Ra_max
             if self.Ra_min is None:
                 Ra_min_plot = 3
-                Ra_diff = Ra_max_plot - Ra_min_plot
-            elif self.Ra_max is None:
+            if self.Ra_max is None:
                 Ra_max_plot = 12
-                Ra_diff = Ra_max_plot - Ra_min_plot
-            else:
-                Ra_diff = Ra_max_plot - Ra_min_plot
+            Ra_diff = Ra_max_plot - Ra_min_plot
 
             plt.xlim(-90, 90)
             plt.ylim(3, 12)
-- 
2.43.0


From dcb74660f9c143ac5b25cecaac393a415dd6d79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:03 +0000
Subject: [PATCH 67/73] fix: load auxi data files that hold a plain dictionary,
 as in the examples

---
 auxi/tools/chemistry/thermochemistry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/auxi/tools/chemistry/thermochemistry.py b/auxi/tools/chemistry/thermochemistry.py
index fbe3d06..a3cb60d 100644
--- a/auxi/tools/chemistry/thermochemistry.py
+++ b/auxi/tools/chemistry/thermochemistry.py
@@ -761,7 +761,11 @@ def load_data_auxi(path=''):
     files = glob.glob(os.path.join(path, 'Compound_*.json'))
 
     for file in files:
-        compound = Compound.read(file)
+        data = _read_compound_from_auxi_file_(file)
+        if 'Formula' in data:  # a plain dictionary of the compound's data
+            compound = Compound(data)
+        else:
+            compound = Compound.read(file)
         compounds[compound.formula] = compound
 
 
-- 
2.43.0


From 505829ef37f580a5268b469af59fb13ed283a3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:03 +0000
Subject: [PATCH 68/73] fix: provide the documented conversion of factsage
 files

---
 auxi/tools/chemistry/thermochemistry.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/auxi/tools/chemistry/thermochemistry.py b/auxi/tools/chemistry/thermochemistry.py
index a3cb60d..f4af4c5 100644
--- a/auxi/tools/chemistry/thermochemistry.py
+++ b/auxi/tools/chemistry/thermochemistry.py
@@ -721,6 +721,18 @@ def write_compound_to_auxi_file(directory, compound):
         f.write(str(compound))
 
 
+def convert_fact_file_to_auxi_thermo_file(fact_file_path, auxi_file_path):
+    """
+    Convert a factsage thermochemical data file to an auxi data file.
+
+    :param fact_file_path: Path of the factsage file to read.
+    :param auxi_file_path: Path of the auxi file to write.
+    """
+
+    compound = Compound(_read_compound_from_factsage_file_(fact_file_path))
+    compound.write(auxi_file_path)
+
+
 def load_data_factsage(path=''):
     """
     Load all the thermochemical data factsage files located at a path.
-- 
2.43.0


From e34be46749de8f4f3ad94f0ccd97f3564bcefb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:59 +0000
Subject: [PATCH 69/73] fix: blank lines in a material file do not count as
 compounds or sizes

---
 auxi/modelling/process/materials/chem.py   | 3 ++-
 auxi/modelling/process/materials/psd.py    | 3 ++-
 auxi/modelling/process/materials/slurry.py | 3 ++-
 auxi/modelling/process/materials/thermo.py | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index 0a7c695..9cf7427 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -138,7 +138,8 @@ class Material(NamedObject):
             while line.find('  ') > -1:
                 line = line.replace('  ', ' ')
 
-            result.append(line)
+            if line:  # Skip blank lines.
+                result.append(line)
 
         return result
 
diff --git a/auxi/modelling/process/materials/psd.py b/auxi/modelling/process/materials/psd.py
index d3392f2..ef09c65 100644
--- a/auxi/modelling/process/materials/psd.py
+++ b/auxi/modelling/process/materials/psd.py
@@ -138,7 +138,8 @@ class Material(NamedObject):
             # Replace all repeating spaces with a single space.
             while line.find("  ") > -1:
                 line = line.replace("  ", " ")
-            result.append(line)
+            if line:  # Skip blank lines.
+                result.append(line)
         return result
 
     def get_size_class_index(self, size_class):
diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index b54d77a..08eb924 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -189,7 +189,8 @@ class Material(NamedObject):
             # Replace all repeating spaces with a single space.
             while line.find("  ") > -1:
                 line = line.replace("  ", " ")
-            result.append(line)
+            if line:  # Skip blank lines.
+                result.append(line)
         return result
 
     def get_size_class_index(self, size_class):
diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 3410d1d..69b8e68 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -238,7 +238,8 @@ class Material(NamedObject):
             while line.find("  ") > -1:
                 line = line.replace("  ", " ")
 
-            result.append(line)
+            if line:  # Skip blank lines.
+                result.append(line)
 
         return result
 
-- 
2.43.0


From 8ef6fa76a0eb515ec5cb58cb48aa9bd5f95cdf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:18 +0000
Subject: [PATCH 70/73] fix: the gas materials carry their own names, not those
 of data files

---
 .../tools/materialphysicalproperties/gases.py | 32 +++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/auxi/tools/materialphysicalproperties/gases.py b/auxi/tools/materialphysicalproperties/gases.py
index 4401b69..d0d4fd3 100644
--- a/auxi/tools/materialphysicalproperties/gases.py
+++ b/auxi/tools/materialphysicalproperties/gases.py
@@ -112,8 +112,8 @@ def _create_air():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        path = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(path))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -150,8 +150,8 @@ def _create_argon():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        path = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(path))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -187,8 +187,8 @@ def _create_ammonia():
 
     model_type = "polynomialmodelt"
     for property in ["rho", "Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        path = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(path))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -224,8 +224,8 @@ def _create_carbon_dioxide():
 
     model_type = "polynomialmodelt"
     for property in ["rho", "Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        path = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(path))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -262,8 +262,8 @@ def _create_carbon_monoxide():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        path = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(path))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -300,8 +300,8 @@ def _create_nitrogen():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        path = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(path))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -338,8 +338,8 @@ def _create_oxygen():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        path = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(path))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -376,8 +376,8 @@ def _create_water_vapour():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        path = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(path))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
-- 
2.43.0


From 5062f5118ee1d62055fe8a890e6d165d53b504a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:50 +0000
Subject: [PATCH 71/73] fix: adding or extracting water in single precision
 made the water of a slurry package single precision

---
 auxi/modelling/process/materials/slurry.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index 08eb924..d6bccaa 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -415,7 +415,7 @@ class MaterialPackage(Object):
 
             # Create the result package.
             result = self.clone()
-            result.H2O_mass += mass
+            result.H2O_mass += float(mass)
             return result
 
         # Add the specified mass of the specified size class.
@@ -458,7 +458,8 @@ class MaterialPackage(Object):
             result = MaterialPackage(
                 self.material,
                 self.solid_density,
-                self.H2O_mass * scalar, self.size_class_masses * scalar)
+                self.H2O_mass * float(scalar),
+                self.size_class_masses * scalar)
             return result
 
         # If not one of the above, it must be an invalid argument.
@@ -643,7 +644,7 @@ class MaterialPackage(Object):
                 raise Exception(
                     "Invalid extraction operation. "
                     "Cannot extract a mass larger than the package's mass.")
-            fraction_to_subtract = other / self.get_mass()
+            fraction_to_subtract = float(other) / self.get_mass()
             result = MaterialPackage(
                 self.material,
                 self.solid_density,
@@ -661,10 +662,11 @@ class MaterialPackage(Object):
                     "Invalid extraction operation. "
                     "Cannot extract a water mass larger than what the package "
                     "contains.")
-            self.H2O_mass = self.H2O_mass - other[1]
+            mass = float(other[1])
+            self.H2O_mass = self.H2O_mass - mass
             resultarray = self.size_class_masses * 0.0
             result = MaterialPackage(
-                self.material, self.solid_density, other[1], resultarray)
+                self.material, self.solid_density, mass, resultarray)
             return result
 
         # Extract the specified mass of the specified size class.
-- 
2.43.0


From dee7a0be29ff9bd4c466671a91a0bcaa9ae09723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:15 +0000
Subject: [PATCH 72/73] fix: adding a compound in single precision made the
 enthalpy of a thermo package or stream single precision

---
 auxi/modelling/process/materials/thermo.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 69b8e68..15fb4d3 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -537,7 +537,7 @@ class MaterialPackage(Object):
             # Added material varialbes.
             compound = other[0]
             index = self.material.get_compound_index(compound)
-            mass = other[1]
+            mass = float(other[1])
             enthalpy = thermo.H(compound, self._T, mass)
 
             # Create the result package.
@@ -554,8 +554,8 @@ class MaterialPackage(Object):
             # Added material varialbes.
             compound = other[0]
             index = self.material.get_compound_index(compound)
-            mass = other[1]
-            temperature = other[2]
+            mass = float(other[1])
+            temperature = float(other[2])
             enthalpy = thermo.H(compound, temperature, mass)
 
             # Create the result package.
@@ -1319,7 +1319,7 @@ class MaterialStream(Object):
             # Added material variables.
             compound = other[0]
             index = self.material.get_compound_index(compound)
-            mfr = other[1]
+            mfr = float(other[1])
             enthalpy = thermo.H(compound, self._T, mfr)
 
             # Create the result stream.
@@ -1335,8 +1335,8 @@ class MaterialStream(Object):
             # Added material varialbes.
             compound = other[0]
             index = self.material.get_compound_index(compound)
-            mfr = other[1]
-            temperature = other[2]
+            mfr = float(other[1])
+            temperature = float(other[2])
             enthalpy = thermo.H(compound, temperature, mfr)
 
             # Create the result stream.
-- 
2.43.0


From a0de03df753fd2392a145b50bd0ba193144dd7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:48 +0000
Subject: [PATCH 73/73] fix: a loan is not paid any further once it is paid off

---
 auxi/modelling/business/basic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/business/basic.py b/auxi/modelling/business/basic.py
index 93cfc50..493aa7d 100644
--- a/auxi/modelling/business/basic.py
+++ b/auxi/modelling/business/basic.py
@@ -236,7 +236,8 @@ class BasicLoanActivity(Activity):
 
     def _meet_execution_criteria(self, ix_period):
         return super(BasicLoanActivity, self)._meet_execution_criteria(
-            ix_period) and self.amount > 0 and self.duration > 0
+            ix_period) and self.amount > 0 and self.duration > 0 and \
+            self._months_executed <= self.duration
 
     def prepare_to_run(self, clock, period_count):
         """
-- 
2.43.0

