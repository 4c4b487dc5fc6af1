From 021e7c3321f00880923508223f8ced5caac4dbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 1/3] fix: compare the sender with the manager's address in
 Converter.tokenFallback

'self.getManager' was compared as a bound method, which never equals an
address, so a manager could not deposit connector tokens while the converter
is inactive.
---
 contracts/converter/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/converter/converter.py b/contracts/converter/converter.py
index 197ff2d..ebaca2c 100644
--- a/contracts/converter/converter.py
+++ b/contracts/converter/converter.py
@@ -228,7 +228,7 @@ class Converter(ABCConverter, FlexibleTokenController, Managed):
         require_positive_value(_value)
         from_token = self.msg.sender
 
-        if (_from == self.getOwner() or _from == self.getManager) \
+        if (_from == self.getOwner() or _from == self.getManager()) \
                 and self._connectors[from_token].is_set.get() \
                 and not self._is_active():
             # If the token sender is the owner and sent token is a connector token, receives tokens
-- 
2.43.0


From 73421cf51ce4b7f0f615064cee2c58a502233af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 2/3] fix: initialise the manager when a Converter is installed

Converter.on_install ran the controller's initialisation only, so a new
converter had no manager until the owner transferred the management.
---
 contracts/converter/converter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/contracts/converter/converter.py b/contracts/converter/converter.py
index ebaca2c..d355130 100644
--- a/contracts/converter/converter.py
+++ b/contracts/converter/converter.py
@@ -194,6 +194,7 @@ class Converter(ABCConverter, FlexibleTokenController, Managed):
         require_valid_address(_registry)
         self._require_valid_max_conversion_fee(_maxConversionFee)
         FlexibleTokenController.on_install(self, _token)
+        Managed.on_install(self)
 
         self._allow_registry_update.set(True)
         self._registry.set(_registry)
-- 
2.43.0


From e280504fb17619797d15cbc3e43d495394298a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 3/3] fix: don't subtract the deposit from a connector's
 virtual balance

When a purchase or a cross connector conversion is executed, the deposit has
already reached the converter's actual balance but not the virtual one, so
a converter with a virtual balance executed conversions at a different price
than getReturn quotes (and reverted when the deposit reached the virtual
balance).
---
 contracts/converter/converter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contracts/converter/converter.py b/contracts/converter/converter.py
index d355130..058dea1 100644
--- a/contracts/converter/converter.py
+++ b/contracts/converter/converter.py
@@ -449,7 +449,8 @@ class Converter(ABCConverter, FlexibleTokenController, Managed):
 
         token_supply = flexible_token.totalSupply()
         connector_balance = self.getConnectorBalance(connector_token)
-        if from_conversion:
+        # the deposit is already part of the actual balance, but not of the virtual one
+        if from_conversion and not connector.is_virtual_balance_enabled.get():
             connector_balance -= amount
 
         calculated_amount = formula.calculate_purchase_return(
@@ -503,7 +504,8 @@ class Converter(ABCConverter, FlexibleTokenController, Managed):
         require(to_connector.is_purchase_enabled.get(), 'required purchase enabled')
 
         from_connector_balance = self.getConnectorBalance(from_token)
-        if from_conversion:
+        # the deposit is already part of the actual balance, but not of the virtual one
+        if from_conversion and not from_connector.is_virtual_balance_enabled.get():
             from_connector_balance -= amount
         to_connector_balance = self.getConnectorBalance(to_token)
 
-- 
2.43.0

