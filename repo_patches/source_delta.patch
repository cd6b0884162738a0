From 14c1f8d4fd1f09f0d8fe3fab2779aa26e68fb51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 01/17] fix: validateInputData does not rename the columns of
 the caller's DataFrame

---
 tti/utils/data_validation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tti/utils/data_validation.py b/tti/utils/data_validation.py
index 2d61032..3064298 100644
--- a/tti/utils/data_validation.py
+++ b/tti/utils/data_validation.py
@@ -63,8 +63,8 @@ def validateInputData(input_data, required_columns, indicator_name, fill_missing
     if input_data.empty:
         raise ValueError("The input_data cannot be an empty pandas.DataFrame.")
 
-    # Make columns case insensitive
-    input_data.columns = [c.lower() for c in input_data.columns]
+    # Make columns case insensitive (the caller's dataframe is not modified)
+    input_data = input_data.set_axis([c.lower() for c in input_data.columns], axis="columns")
 
     # Validate that the data frame holds columns of numeric type and that all
     # the required columns are contained.
-- 
2.43.0


From ba240fac6f5fc3a0e9e1e656bc224b8baad2e949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 02/17] fix: AverageTrueRange reports the 14 rows it really
 needs when data are not enough

---
 tti/indicators/_average_true_range.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/_average_true_range.py b/tti/indicators/_average_true_range.py
index bf9d2d2..8c987f5 100644
--- a/tti/indicators/_average_true_range.py
+++ b/tti/indicators/_average_true_range.py
@@ -65,7 +65,7 @@ class AverageTrueRange(TechnicalIndicator):
 
         # Not enough data for the requested period
         if len(self._input_data.index) < 14:
-            raise NotEnoughInputData("Average True Range", 2, len(self._input_data.index))
+            raise NotEnoughInputData("Average True Range", 14, len(self._input_data.index))
 
         atr = pd.DataFrame(index=self._input_data.index, columns=["atr"], data=0, dtype="float64")
 
-- 
2.43.0


From db3e56cf79a2e058e2714b3296561eed38cc56b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 03/17] fix: Envelopes reports the rejected shift instead of
 the period

---
 tti/indicators/_envelopes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tti/indicators/_envelopes.py b/tti/indicators/_envelopes.py
index d3026d3..3135200 100644
--- a/tti/indicators/_envelopes.py
+++ b/tti/indicators/_envelopes.py
@@ -65,9 +65,9 @@ class Envelopes(TechnicalIndicator):
             if 1.0 > shift > 0.0:
                 self._shift = shift
             else:
-                raise WrongValueForInputParameter(period, "shift", ">0.0 and <1.0")
+                raise WrongValueForInputParameter(shift, "shift", ">0.0 and <1.0")
         else:
-            raise WrongTypeForInputParameter(type(period), "shift", "float")
+            raise WrongTypeForInputParameter(type(shift), "shift", "float")
 
         # Control is passing to the parent class
         super().__init__(
-- 
2.43.0


From 3b29495d6260e2d0d4ce7eeb9d56d99fe359d8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 04/17] fix: MedianPrice.getTiSignal holds instead of raising
 IndexError on a single row

---
 tti/indicators/_median_price.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/_median_price.py b/tti/indicators/_median_price.py
index 49cf782..0a698b5 100644
--- a/tti/indicators/_median_price.py
+++ b/tti/indicators/_median_price.py
@@ -101,7 +101,7 @@ class MedianPrice(TechnicalIndicator):
         """
 
         # Not enough data for calculating trading signal
-        if len(self._ti_data.index) < self._period:
+        if len(self._ti_data.index) < max(self._period, 2):
             return TRADE_SIGNALS["hold"]
 
         # Indicator value goes below Moving Average
-- 
2.43.0


From 6ccae82d11866e42023cfa1353ab478263c0942e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 05/17] fix: RangeIndicator.getTiSignal holds instead of
 raising IndexError when the indicator was never below 20

---
 tti/indicators/_range_indicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/_range_indicator.py b/tti/indicators/_range_indicator.py
index f5fa64c..e8c0ba2 100644
--- a/tti/indicators/_range_indicator.py
+++ b/tti/indicators/_range_indicator.py
@@ -189,7 +189,7 @@ class RangeIndicator(TechnicalIndicator):
                     return TRADE_SIGNALS["sell"]
                 else:
                     return TRADE_SIGNALS["buy"]
-            except KeyError:
+            except (KeyError, IndexError):
                 return TRADE_SIGNALS["hold"]
 
         return TRADE_SIGNALS["hold"]
-- 
2.43.0


From ec5b87b6436eb93f9718fb5c12c7f1a3536b830c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 06/17] fix: RelativeMomentumIndex is 100 and not NaN when
 there are no down moves

---
 tti/indicators/_relative_momentum_index.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tti/indicators/_relative_momentum_index.py b/tti/indicators/_relative_momentum_index.py
index 1b6727e..bca9cb5 100644
--- a/tti/indicators/_relative_momentum_index.py
+++ b/tti/indicators/_relative_momentum_index.py
@@ -139,9 +139,7 @@ class RelativeMomentumIndex(TechnicalIndicator):
 
         # Calculate indicator
         rmi["rmi"] = (
-            100
-            * (rmi["smoothed_upc"] / rmi["smoothed_dpc"])
-            / (1 + rmi["smoothed_upc"] / rmi["smoothed_dpc"])
+            100 * rmi["smoothed_upc"] / (rmi["smoothed_upc"] + rmi["smoothed_dpc"])
         )
 
         return rmi[["rmi"]].round(4)
-- 
2.43.0


From d0539011be30a5701c57ce1775459f30cb013ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 07/17] fix: TypicalPrice signal uses the moving average of the
 close prices whatever the column order

---
 tti/indicators/_typical_price.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tti/indicators/_typical_price.py b/tti/indicators/_typical_price.py
index 29bc690..b0cdbff 100644
--- a/tti/indicators/_typical_price.py
+++ b/tti/indicators/_typical_price.py
@@ -96,10 +96,10 @@ class TypicalPrice(TechnicalIndicator):
             return TRADE_SIGNALS["hold"]
 
         # Calculate moving average of the close prices
-        ma = self._input_data.rolling(window=self._period, min_periods=self._period).mean()
+        ma = self._input_data["close"].rolling(window=self._period, min_periods=self._period).mean()
 
         # Indicator goes above Moving Average
-        if self._ti_data["tp"].iat[-1] > ma.iat[-1, 0]:
+        if self._ti_data["tp"].iat[-1] > ma.iat[-1]:
             return TRADE_SIGNALS["buy"]
 
         return TRADE_SIGNALS["hold"]
-- 
2.43.0


From 2eb97875c6e584ad257f9246ec92c7dbd90ebd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 08/17] fix: AverageTrueRange signal uses the moving averages
 of the close prices whatever the column order

---
 tti/indicators/_average_true_range.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tti/indicators/_average_true_range.py b/tti/indicators/_average_true_range.py
index 8c987f5..5f76910 100644
--- a/tti/indicators/_average_true_range.py
+++ b/tti/indicators/_average_true_range.py
@@ -104,22 +104,22 @@ class AverageTrueRange(TechnicalIndicator):
             return TRADE_SIGNALS["hold"]
 
         # Calculate Simple Moving Averages
-        sma_05 = self._input_data.rolling(window=5, min_periods=5).mean()
+        sma_05 = self._input_data["close"].rolling(window=5, min_periods=5).mean()
 
-        sma_10 = self._input_data.rolling(window=10, min_periods=5).mean()
+        sma_10 = self._input_data["close"].rolling(window=10, min_periods=5).mean()
 
         # Assumption on what high volatility means
         if self._ti_data["atr"].values[-1] > 0.01 * self._input_data["close"].values[-1]:
             # Price falling is expected or secondary rally
-            if self._input_data["close"].iat[-1] > sma_05.iat[-1, 0]:
+            if self._input_data["close"].iat[-1] > sma_05.iat[-1]:
                 # Assuming long term upward rally
-                if self._input_data["close"].iat[-1] > sma_10.iat[-1, 0]:
+                if self._input_data["close"].iat[-1] > sma_10.iat[-1]:
                     return TRADE_SIGNALS["buy"]
                 else:
                     return TRADE_SIGNALS["sell"]
 
             # Price raise is expected
-            if self._input_data["close"].iat[-1] < sma_05.iat[-1, 0]:
+            if self._input_data["close"].iat[-1] < sma_05.iat[-1]:
                 return TRADE_SIGNALS["buy"]
 
         return TRADE_SIGNALS["hold"]
-- 
2.43.0


From 5fdd4d0cc160970cf02ab19544afde062dcb0099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 09/17] fix: AccumulationDistributionLine past values do not
 change when a later day has no price range

---
 tti/indicators/_accumulation_distribution_line.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tti/indicators/_accumulation_distribution_line.py b/tti/indicators/_accumulation_distribution_line.py
index 2f3bf3c..a935f6b 100644
--- a/tti/indicators/_accumulation_distribution_line.py
+++ b/tti/indicators/_accumulation_distribution_line.py
@@ -6,6 +6,7 @@ File name: _accumulation_distribution_line.py
 """
 
 import pandas as pd
+import numpy as np
 
 from ._technical_indicator import TechnicalIndicator
 from ..utils.constants import TRADE_SIGNALS
@@ -69,7 +70,8 @@ class AccumulationDistributionLine(TechnicalIndicator):
             / (self._input_data["high"] - self._input_data["low"])
         )
 
-        adl = adl.cumsum(axis=0)
+        # Truncate here, since the cast is ignored when there are missing values
+        adl = np.trunc(adl.cumsum(axis=0))
 
         return adl.astype(dtype="int64", errors="ignore")
 
-- 
2.43.0


From cccfae8dc7d4dbd44685b3e91a599c4a693c5228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 10/17] fix: MassIndex signals only when the indicator has
 dropped below 26.5

---
 tti/indicators/_mass_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/_mass_index.py b/tti/indicators/_mass_index.py
index 1c8e26b..c2832eb 100644
--- a/tti/indicators/_mass_index.py
+++ b/tti/indicators/_mass_index.py
@@ -107,7 +107,7 @@ class MassIndex(TechnicalIndicator):
         # below 26.5. Specific values for 25-Mass Index.
         reversal_bulge = False
 
-        if True or self._ti_data["mi"].iat[-1] < 26.5:
+        if self._ti_data["mi"].iat[-1] < 26.5:
             for i in range(-2, -len(self._ti_data.index) - 1, -1):
                 if self._ti_data["mi"].iat[i] < 26.5:
                     break
-- 
2.43.0


From 88db616f307c048e72aad2b057d32273e6ebf97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 11/17] fix: UltimateOscillator signal compares the indicator
 values, not a boolean, with its thresholds

---
 tti/indicators/_ultimate_oscillator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tti/indicators/_ultimate_oscillator.py b/tti/indicators/_ultimate_oscillator.py
index 574dce6..dc7e986 100644
--- a/tti/indicators/_ultimate_oscillator.py
+++ b/tti/indicators/_ultimate_oscillator.py
@@ -138,10 +138,10 @@ class UltimateOscillator(TechnicalIndicator):
 
         if close_low_index != uosc_low_index:
             # Check if indicator falls below 30 during the bullish period
-            if self._ti_data["uosc"].iloc[-span_period:].all() < 30:
+            if self._ti_data["uosc"].iloc[-span_period:].min() < 30:
                 # Buy when indicator makes a highest high during this period
                 if (
-                    self._ti_data["uosc"].iloc[-span_period:-1].all()
+                    self._ti_data["uosc"].iloc[-span_period:-1].max()
                     < self._ti_data["uosc"].iat[-1]
                 ):
                     return TRADE_SIGNALS["buy"]
-- 
2.43.0


From 83ef335943975e714e50c7a3aba647e8a7b2602e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 12/17] fix: IchimokuCloud does not signal a breakout of a
 cloud which does not exist yet

---
 tti/indicators/_ichimoku_cloud.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tti/indicators/_ichimoku_cloud.py b/tti/indicators/_ichimoku_cloud.py
index 037b6bf..a644df3 100644
--- a/tti/indicators/_ichimoku_cloud.py
+++ b/tti/indicators/_ichimoku_cloud.py
@@ -126,6 +126,10 @@ class IchimokuCloud(TechnicalIndicator):
         if len(self._ti_data.index) < 2:
             return TRADE_SIGNALS["hold"]
 
+        # The cloud is not available yet
+        if self._ti_data[["senkou_a", "senkou_b"]].iloc[-1].isna().any():
+            return TRADE_SIGNALS["hold"]
+
         # If 3 all 'close', 'tenkan_sen' and 'kijun_sen' are above the cloud
         # if -3 all 'close', 'tenkan_sen' and 'kijun_sen' are below the cloud
         position_in_cloud = (
-- 
2.43.0


From 3dcfaab690a1d213394b0e0791b754341a648f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 13/17] fix: getTiSimulation restores the indicator data also
 when it is interrupted

---
 tti/indicators/_technical_indicator.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/tti/indicators/_technical_indicator.py b/tti/indicators/_technical_indicator.py
index 5a87037..2d028b3 100644
--- a/tti/indicators/_technical_indicator.py
+++ b/tti/indicators/_technical_indicator.py
@@ -410,17 +410,21 @@ class TechnicalIndicator(ABC):
         full_input_data = self._input_data
 
         # Run simulation rounds for the whole period
-        for i in range(len(self._ti_data.index)):
-            # Limit the input and indicator data to this simulation round
-            self._input_data = full_input_data[full_input_data.index <= full_input_data.index[i]]
+        try:
+            for i in range(len(full_ti_data.index)):
+                # Limit the input and indicator data to this simulation round
+                self._input_data = full_input_data[
+                    full_input_data.index <= full_input_data.index[i]
+                ]
 
-            self._ti_data = full_ti_data[full_ti_data.index <= full_ti_data.index[i]]
+                self._ti_data = full_ti_data[full_ti_data.index <= full_ti_data.index[i]]
 
-            simulator.runSimulationRound(i_index=i, signal=self.getTiSignal())
+                simulator.runSimulationRound(i_index=i, signal=self.getTiSignal())
 
-        # Restore input and indicator data to full range
-        self._ti_data = full_ti_data
-        self._input_data = full_input_data
+        finally:
+            # Restore input and indicator data to full range
+            self._ti_data = full_ti_data
+            self._input_data = full_input_data
 
         simulation_data, statistics = simulator.closeSimulation()
 
-- 
2.43.0


From aedbe7adefe7305b229e0ee8e3f5d255fadf8354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:53 +0000
Subject: [PATCH 14/17] fix: getTiSimulation refuses NaN for max_exposure and
 short_exposure_factor

---
 tti/utils/trading_simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tti/utils/trading_simulation.py b/tti/utils/trading_simulation.py
index e3d30b1..3ad498b 100644
--- a/tti/utils/trading_simulation.py
+++ b/tti/utils/trading_simulation.py
@@ -260,7 +260,7 @@ class TradingSimulation:
 
         # Validate max_exposure
         if isinstance(self._max_exposure, (int, float)):
-            if self._max_exposure <= 0:
+            if not self._max_exposure > 0:
                 raise WrongValueForInputParameter(self._max_exposure, "max_exposure", ">0 or None")
         elif self._max_exposure is None:
             pass
@@ -271,7 +271,7 @@ class TradingSimulation:
 
         # Validate short_exposure_factor
         if isinstance(self._short_exposure_factor, (int, float)):
-            if self._short_exposure_factor < 1.0:
+            if not self._short_exposure_factor >= 1.0:
                 raise WrongValueForInputParameter(
                     self._short_exposure_factor, "short_exposure_factor", ">=1.0"
                 )
-- 
2.43.0


From 68c05355ac815483ef6125b95d6c443b4c17cdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:34 +0000
Subject: [PATCH 15/17] fix: calculate on default numeric types

Unsigned, narrow and nullable columns pass the validation, but made values
wrap around (unsigned volume in OBV, unsigned prices in ADL, CMO, Qstick, ...)
or construction fail (KlingerOscillator with a nullable type).
---
 tti/utils/data_validation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tti/utils/data_validation.py b/tti/utils/data_validation.py
index 3064298..cb65cf6 100644
--- a/tti/utils/data_validation.py
+++ b/tti/utils/data_validation.py
@@ -95,6 +95,12 @@ def validateInputData(input_data, required_columns, indicator_name, fill_missing
         if column not in required_columns:
             input_data = input_data.drop(columns=column, inplace=False)
 
+    # Unsigned, narrow and nullable types wrap around, overflow or propagate
+    # pd.NA in the calculations
+    for column in required_columns:
+        if input_data[column].dtype not in ("int64", "float64"):
+            input_data = input_data.astype({column: "float64"})
+
     # Sort dataframe on index ascending
     input_data = input_data.sort_index(ascending=True, inplace=False)
 
-- 
2.43.0


From 093ef1dbcd6b036b2a09e282cf56f99a99ad7308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 16/17] fix: accept any label on columns that are not used

Unused columns with non-string labels (AttributeError) or with labels that
are equal when their case is ignored (KeyError) made every indicator fail.
---
 tti/utils/data_validation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tti/utils/data_validation.py b/tti/utils/data_validation.py
index cb65cf6..07a02db 100644
--- a/tti/utils/data_validation.py
+++ b/tti/utils/data_validation.py
@@ -64,7 +64,7 @@ def validateInputData(input_data, required_columns, indicator_name, fill_missing
         raise ValueError("The input_data cannot be an empty pandas.DataFrame.")
 
     # Make columns case insensitive (the caller's dataframe is not modified)
-    input_data = input_data.set_axis([c.lower() for c in input_data.columns], axis="columns")
+    input_data = input_data.set_axis([str(c).lower() for c in input_data.columns], axis="columns")
 
     # Validate that the data frame holds columns of numeric type and that all
     # the required columns are contained.
@@ -91,9 +91,7 @@ def validateInputData(input_data, required_columns, indicator_name, fill_missing
             )
 
     # Remove not required columns, if any
-    for column in input_data.columns:
-        if column not in required_columns:
-            input_data = input_data.drop(columns=column, inplace=False)
+    input_data = input_data.loc[:, input_data.columns.isin(required_columns)]
 
     # Unsigned, narrow and nullable types wrap around, overflow or propagate
     # pd.NA in the calculations
-- 
2.43.0


From c4db453e9bfcbe10f676b45d654f7c7d2e66462c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 17/17] fix: CommodityChannelIndex adds high, low and close in
 the same order whatever the column order

---
 tti/indicators/_commodity_channel_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/_commodity_channel_index.py b/tti/indicators/_commodity_channel_index.py
index 6a70caa..26c3ec7 100644
--- a/tti/indicators/_commodity_channel_index.py
+++ b/tti/indicators/_commodity_channel_index.py
@@ -88,7 +88,7 @@ class CommodityChannelIndex(TechnicalIndicator):
         cci = pd.DataFrame(index=self._input_data.index, columns=["cci"], data=0, dtype="float64")
 
         # Average of high, low and close
-        typical_price = self._input_data.sum(axis=1) / 3.0
+        typical_price = self._input_data[["high", "low", "close"]].sum(axis=1) / 3.0
 
         # Simple moving average of the typical price
         tp_sma = typical_price.rolling(window=self._period, min_periods=self._period).mean()
-- 
2.43.0

