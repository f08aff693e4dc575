From 102f513c8a6205fb3f2923515ef6340438e33f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 01/18] fix: report incomplete writes of delimited proto files

The gzip trailer and the buffered data were written only by destructors,
so a full disk or a failed write or close left a truncated output file
behind a successful status.
---
 util/proto.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/util/proto.h b/util/proto.h
index 5b7ebeb..d09cc25 100644
--- a/util/proto.h
+++ b/util/proto.h
@@ -125,6 +125,12 @@ absl::Status WriteDelimitedMessagesToOStream(InputIterator first,
     }
     ++first;
   }
+#ifdef HAVE_ZLIB
+  // Write all the remaining compressed data (including the gzip trailer).
+  if (!gzip_stream.Close()) {
+    return absl::DataLossError("Cannot write to the output stream");
+  }
+#endif
   return absl::OkStatus();
 }
 
@@ -140,7 +146,18 @@ absl::Status WriteDelimitedMessagesToFile(InputIterator first,
     return absl::InvalidArgumentError(
         absl::StrFormat("Cannot open the input file: %s", file_name));
   }
-  return WriteDelimitedMessagesToOStream(first, last, out_fstream, compress);
+  const absl::Status status =
+      WriteDelimitedMessagesToOStream(first, last, out_fstream, compress);
+  if (!status.ok()) {
+    return status;
+  }
+  // The data is buffered. It is complete only after a successful close.
+  out_fstream.close();
+  if (!out_fstream) {
+    return absl::DataLossError(
+        absl::StrFormat("Cannot write the output file: %s", file_name));
+  }
+  return absl::OkStatus();
 }
 
 }  // namespace trader
-- 
2.43.0


From 3c0e42cde7ed24521f18c772e7602fea61a64451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:25 +0000
Subject: [PATCH 02/18] fix: report truncated, damaged or unreadable delimited
 proto files

The end of the decompressed data was taken for the end of the file also
when the compressed data was cut off or could not be read, so an
incomplete history was loaded with a successful status.
---
 util/proto.h | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/util/proto.h b/util/proto.h
index d09cc25..7dfac1d 100644
--- a/util/proto.h
+++ b/util/proto.h
@@ -28,6 +28,27 @@ namespace trader {
 enum class ReaderSignal { kContinue, kBreak };
 using ReaderStatus = absl::StatusOr<ReaderSignal>;
 
+#ifdef HAVE_ZLIB
+// Returns true if there is more data to be read from the gzip_stream.
+// Otherwise sets "complete" to true iff the compressed data ended properly
+// (i.e. it was neither truncated nor damaged).
+inline bool HasMoreData(google::protobuf::io::GzipInputStream& gzip_stream,
+                        bool& complete) {
+  const void* data = nullptr;
+  int size = 0;
+  while (size == 0) {
+    const int prev_zlib_error_code = gzip_stream.ZlibErrorCode();
+    if (!gzip_stream.Next(&data, &size)) {
+      complete = prev_zlib_error_code == Z_STREAM_END &&
+                 gzip_stream.ZlibErrorCode() >= 0;
+      return false;
+    }
+  }
+  gzip_stream.BackUp(size);
+  return true;
+}
+#endif
+
 // Reads delimited messages from the (compressed) input stream and applies the
 // function "reader" on them.
 template <typename T>
@@ -40,12 +61,22 @@ absl::Status ReadDelimitedMessagesFromIStream(
   google::protobuf::io::ZeroCopyInputStream& gzip_stream = in_stream;
 #endif
   while (true) {
+#ifdef HAVE_ZLIB
+    bool complete = false;
+    if (!HasMoreData(gzip_stream, complete)) {
+      // An empty input stream contains no messages.
+      if ((!complete && in_stream.ByteCount() > 0) || stream.bad()) {
+        return absl::DataLossError("The input stream is incomplete or damaged");
+      }
+      return absl::OkStatus();
+    }
+#endif
     T message;
     bool clean_eof;
     bool parsed = google::protobuf::util::ParseDelimitedFromZeroCopyStream(
         &message, &gzip_stream, &clean_eof);
     if (!parsed) {
-      if (clean_eof) {
+      if (clean_eof && !stream.bad()) {
         return absl::OkStatus();
       }
       return absl::InvalidArgumentError("Cannot parse the input stream");
-- 
2.43.0


From ef72a053dd0a3bf79d56a7025dfea2ff549e5de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:25 +0000
Subject: [PATCH 03/18] fix: terminate the non-periodic evaluation without OHLC
 ticks

With no evaluation period and no OHLC tick in the evaluated range the
loop over the evaluation windows never ended.
---
 eval/eval.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eval/eval.cc b/eval/eval.cc
index e290f2e..e160b9b 100644
--- a/eval/eval.cc
+++ b/eval/eval.cc
@@ -164,6 +164,9 @@ EvaluationResult EvaluateTrader(const AccountConfig& account_config,
     const auto ohlc_history_subset = HistorySubset(
         ohlc_history, start_eval_timestamp_sec, end_eval_timestamp_sec);
     if (ohlc_history_subset.first == ohlc_history_subset.second) {
+      if (eval_config.evaluation_period_months() == 0) {
+        break;
+      }
       continue;
     }
     std::unique_ptr<Trader> trader = trader_emitter.NewTrader();
-- 
2.43.0


From d00ce072b9519e68a50877c9ed37b20837cd6025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 04/18] fix: run without side input when no side record is
 selected

SideInput was constructed from an empty history (undefined behaviour)
when the side history had no record within the selected time period.
---
 trader.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trader.cc b/trader.cc
index e8675fb..62c52aa 100644
--- a/trader.cc
+++ b/trader.cc
@@ -197,7 +197,10 @@ int main(int argc, char* argv[]) {
             absl::GetFlag(FLAGS_input_side_history_delimited_proto_file),
             start_time, end_time);
     CheckOk(side_history_status.status());
-    side_input = absl::make_unique<SideInput>(side_history_status.value());
+    // SideInput cannot be empty. There are no signals without any records.
+    if (!side_history_status.value().empty()) {
+      side_input = absl::make_unique<SideInput>(side_history_status.value());
+    }
   }
 
   const absl::Time latency_start_time = absl::Now();
-- 
2.43.0


From a7ef7dbe2b0564ac7bda4303c44730c8a761d3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 05/18] fix: report incompletely written log files

Write and close errors of the exchange log and the trader log (a full
disk for example) were ignored, leaving truncated logs behind a
successful exit status.
---
 trader.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/trader.cc b/trader.cc
index 62c52aa..a0a1e5d 100644
--- a/trader.cc
+++ b/trader.cc
@@ -120,6 +120,20 @@ absl::StatusOr<std::unique_ptr<std::ofstream>> OpenLogFile(
   return log_stream;
 }
 
+// Closes the log file and checks that the log was completely written.
+absl::Status CloseLogFile(std::ofstream* log_stream,
+                          const std::string& log_filename) {
+  if (log_stream == nullptr) {
+    return absl::OkStatus();
+  }
+  log_stream->close();
+  if (!*log_stream) {
+    return absl::DataLossError(
+        absl::StrFormat("Cannot write the file: %s", log_filename));
+  }
+  return absl::OkStatus();
+}
+
 void PrintBatchEvalResults(const std::vector<EvaluationResult>& eval_results,
                            size_t top_n) {
   const size_t eval_count = std::min(top_n, eval_results.size());
@@ -234,6 +248,10 @@ int main(int argc, char* argv[]) {
         EvaluateTrader(account_config, eval_config, ohlc_history,
                        side_input.get(), *trader_emitter, &logger);
     PrintTraderEvalResult(eval_result);
+    CheckOk(CloseLogFile(exchange_log_stream_status.value().get(),
+                         absl::GetFlag(FLAGS_output_exchange_log_file)));
+    CheckOk(CloseLogFile(trader_log_stream_status.value().get(),
+                         absl::GetFlag(FLAGS_output_trader_log_file)));
   }
   LogInfo(
       absl::StrFormat("\nEvaluated in %.3f seconds",
-- 
2.43.0


From 3368d5a2ce0c0211f789bf4ac409a87659488039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 06/18] fix: report read errors of the input CSV files

A read error was taken for the end of the file, so that the import
silently lost the remaining rows.
---
 convert.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/convert.cc b/convert.cc
index fd6d36b..b7ef3cf 100644
--- a/convert.cc
+++ b/convert.cc
@@ -106,6 +106,10 @@ absl::StatusOr<PriceHistory> ReadPriceHistoryFromCsvFile(
     price_history.back().set_price(price);
     price_history.back().set_volume(volume);
   }
+  if (infile.bad()) {
+    return absl::DataLossError(
+        absl::StrFormat("Cannot read the file: %s", file_name));
+  }
   LogInfo(
       absl::StrFormat("Loaded %d records in %.3f seconds", price_history.size(),
                       absl::ToDoubleSeconds(absl::Now() - latency_start_time)));
@@ -167,6 +171,10 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromCsvFile(
     ohlc_history.back().set_close(close);
     ohlc_history.back().set_volume(volume);
   }
+  if (infile.bad()) {
+    return absl::DataLossError(
+        absl::StrFormat("Cannot read the file: %s", file_name));
+  }
   LogInfo(absl::StrFormat(
       "Loaded %d OHLC ticks in %.3f seconds", ohlc_history.size(),
       absl::ToDoubleSeconds(absl::Now() - latency_start_time)));
@@ -225,6 +233,10 @@ absl::StatusOr<SideHistory> ReadSideHistoryFromCsvFile(
           "Invalid number of signals on the line %d: %s", row, line));
     }
   }
+  if (infile.bad()) {
+    return absl::DataLossError(
+        absl::StrFormat("Cannot read the file: %s", file_name));
+  }
   LogInfo(
       absl::StrFormat("Loaded %d records in %.3f seconds", side_history.size(),
                       absl::ToDoubleSeconds(absl::Now() - latency_start_time)));
-- 
2.43.0


From 79f05783902cf3211ffcd24d934b4cd00a0f7850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 07/18] fix: reject CSV rows with missing, non-numeric or
 non-finite fields

A row that could not be parsed was imported with the values of the
previous row.
---
 convert.cc | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/convert.cc b/convert.cc
index b7ef3cf..8df048b 100644
--- a/convert.cc
+++ b/convert.cc
@@ -1,5 +1,7 @@
 // Copyright © 2023 Peter Cerno. All rights reserved.
 
+#include <cmath>
+
 #include "absl/flags/flag.h"
 #include "absl/flags/parse.h"
 #include "absl/status/status.h"
@@ -81,7 +83,11 @@ absl::StatusOr<PriceHistory> ReadPriceHistoryFromCsvFile(
   PriceHistory price_history;
   while (std::getline(infile, line)) {
     ++row;
-    std::sscanf(line.c_str(), "%lld,%f,%f", &timestamp_sec, &price, &volume);
+    if (std::sscanf(line.c_str(), "%lld,%f,%f", &timestamp_sec, &price,
+                    &volume) != 3) {
+      return absl::InvalidArgumentError(
+          absl::StrFormat("Cannot parse the line %d: %s", row, line));
+    }
     if (start_timestamp_sec > 0 && timestamp_sec < start_timestamp_sec) {
       continue;
     }
@@ -92,11 +98,11 @@ absl::StatusOr<PriceHistory> ReadPriceHistoryFromCsvFile(
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid timestamp on the line %d: %s", row, line));
     }
-    if (price <= 0) {
+    if (!std::isfinite(price) || price <= 0) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid price on the line %d: %s", row, line));
     }
-    if (volume < 0) {
+    if (!std::isfinite(volume) || volume < 0) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid volume on the line %d: %s", row, line));
     }
@@ -141,8 +147,12 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromCsvFile(
   OhlcHistory ohlc_history;
   while (std::getline(infile, line)) {
     ++row;
-    std::sscanf(line.c_str(), "%lld,%f,%f,%f,%f,%f",  // nowrap
-                &timestamp_sec, &open, &high, &low, &close, &volume);
+    if (std::sscanf(line.c_str(), "%lld,%f,%f,%f,%f,%f",  // nowrap
+                    &timestamp_sec, &open, &high, &low, &close,
+                    &volume) != 6) {
+      return absl::InvalidArgumentError(
+          absl::StrFormat("Cannot parse the line %d: %s", row, line));
+    }
     if (start_timestamp_sec > 0 && timestamp_sec < start_timestamp_sec) {
       continue;
     }
@@ -153,12 +163,13 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromCsvFile(
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid timestamp on the line %d: %s", row, line));
     }
-    if (open <= 0 || high <= 0 || low <= 0 || close <= 0 || low > open ||
+    if (!std::isfinite(open) || !std::isfinite(high) || !std::isfinite(low) ||
+        !std::isfinite(close) || open <= 0 || high <= 0 || low <= 0 || close <= 0 || low > open ||
         low > high || low > close || high < open || high < close) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid OHLC prices on the line %d: %s", row, line));
     }
-    if (volume < 0) {
+    if (!std::isfinite(volume) || volume < 0) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid volume on the line %d: %s", row, line));
     }
@@ -222,7 +233,11 @@ absl::StatusOr<SideHistory> ReadSideHistoryFromCsvFile(
     timestamp_sec_prev = timestamp_sec;
     side_history.emplace_back();
     side_history.back().set_timestamp_sec(timestamp_sec);
-    while (iss >> signal) {
+    while (!(iss >> std::ws).eof()) {
+      if (!(iss >> signal)) {
+        return absl::InvalidArgumentError(
+            absl::StrFormat("Cannot parse the line %d: %s", row, line));
+      }
       side_history.back().add_signal(signal);
     }
     if (num_signals == 0) {
-- 
2.43.0


From bd402d84e3f36487fa773a3f197d2c638720049c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 08/18] fix: execute an order at most once when zero volume
 ticks follow

---
 eval/eval.cc | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/eval/eval.cc b/eval/eval.cc
index e160b9b..404f969 100644
--- a/eval/eval.cc
+++ b/eval/eval.cc
@@ -86,16 +86,20 @@ ExecutionResult ExecuteTrader(const AccountConfig& account_config,
     // The trader was updated on the previous OHLC tick T[i-1] and emitted
     // "orders". There are no other active orders on the exchange.
     // Execute (or cancel) "orders" on the current OHLC tick T[i].
-    for (const Order& order : orders) {
+    for (auto order_it = orders.begin(); order_it != orders.end();) {
       const bool success =
-          account.ExecuteOrder(account_config, order, ohlc_tick);
-      if (success) {
-        ++total_executed_orders;
-        // Log only the executed orders and their impact on the trader account.
-        if (logger != nullptr) {
-          logger->LogExchangeState(ohlc_tick, account, order);
-        }
+          account.ExecuteOrder(account_config, *order_it, ohlc_tick);
+      if (!success) {
+        ++order_it;
+        continue;
       }
+      ++total_executed_orders;
+      // Log only the executed orders and their impact on the trader account.
+      if (logger != nullptr) {
+        logger->LogExchangeState(ohlc_tick, account, *order_it);
+      }
+      // Executed orders must not be executed again (after a zero volume tick).
+      order_it = orders.erase(order_it);
     }
     if (ohlc_tick.volume() == 0) {
       // Zero volume OHLC tick indicates a gap in a price history. Such gap
-- 
2.43.0


From 0878d143ea1e17f33a410648988d9e03690a328e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:41 +0000
Subject: [PATCH 09/18] fix: reject orders with nothing to trade when the base
 unit is zero

---
 base/account.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/base/account.cc b/base/account.cc
index f74272b..cd56b82 100644
--- a/base/account.cc
+++ b/base/account.cc
@@ -79,7 +79,7 @@ bool Account::BuyBase(const FeeConfig& fee_config, float base_amount,
   assert(price > 0);
   assert(base_amount >= 0);
   base_amount = Round(base_amount, base_unit);
-  if (base_amount < base_unit) {
+  if (base_amount <= 0 || base_amount < base_unit) {
     return false;
   }
   const float quote_amount = Ceil(base_amount * price, quote_unit);
@@ -119,7 +119,8 @@ bool Account::SellBase(const FeeConfig& fee_config, float base_amount,
   assert(price > 0);
   assert(base_amount >= 0);
   base_amount = Round(base_amount, base_unit);
-  if (base_amount < base_unit || base_amount > base_balance) {
+  if (base_amount <= 0 || base_amount < base_unit ||
+      base_amount > base_balance) {
     return false;
   }
   const float quote_amount = Floor(base_amount * price, quote_unit);
-- 
2.43.0


From 0b74920cc003b898e1ea766928dd1d69d697b297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 10/18] fix: select nothing when the period ends before it
 starts

---
 base/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/base.h b/base/base.h
index ae54983..9eb073e 100644
--- a/base/base.h
+++ b/base/base.h
@@ -62,7 +62,7 @@ HistorySubset(const std::vector<T>& history, int64_t start_timestamp_sec,
           : history.begin();
   const auto record_end =
       end_timestamp_sec > 0
-          ? std::lower_bound(history.begin(), history.end(), end_timestamp_sec,
+          ? std::lower_bound(record_begin, history.end(), end_timestamp_sec,
                              record_compare)
           : history.end();
   return {record_begin, record_end};
-- 
2.43.0


From 5885adb74408724679ad733140fa349ced678f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:26 +0000
Subject: [PATCH 11/18] fix: do not report NaN volatility when rounding makes
 the variance negative

---
 indicators/util.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/indicators/util.cc b/indicators/util.cc
index 0da1c03..43f1f11 100644
--- a/indicators/util.cc
+++ b/indicators/util.cc
@@ -17,8 +17,11 @@ float SlidingWindowMeanAndVariance::GetVariance() const {
   }
   const int window_size = GetWindowSize();
   const float mean = (current_value_ + window_sum_) / window_size;
-  return (std::pow(current_value_, 2) + window_sum_2_) / window_size -
-         std::pow(mean, 2);
+  const float variance =
+      (std::pow(current_value_, 2) + window_sum_2_) / window_size -
+      std::pow(mean, 2);
+  // The difference can be slightly negative due to rounding errors.
+  return std::max(variance, 0.0f);
 }
 
 float SlidingWindowMeanAndVariance::GetStandardDeviation() const {
-- 
2.43.0


From 8a8b7f572f6c1d9894e34d5ee9182d5bcf8fb36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:14 +0000
Subject: [PATCH 12/18] fix: place the rebalancing limit orders where the share
 leaves the band

The limit prices solved the allocation equation for a base balance of one
unit: with any other holding the sell and buy limits were off by the factor
of the base balance (or missing), so the share left the tolerated band
without the orders that should have restored it.
---
 traders/rebalancing_trader.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/traders/rebalancing_trader.cc b/traders/rebalancing_trader.cc
index 017692b..892e6ca 100644
--- a/traders/rebalancing_trader.cc
+++ b/traders/rebalancing_trader.cc
@@ -41,7 +41,8 @@ void RebalancingTrader::Update(const OhlcTick& ohlc_tick,
   } else if (base_balance > 1.0e-6f && quote_balance > 1.0e-6f) {
     if (alpha * (1 + epsilon) < 1) {
       const float sell_price =
-          (alpha * (1 + epsilon) * quote_balance) / (1 - alpha * (1 + epsilon));
+          (alpha * (1 + epsilon) * quote_balance) /
+          ((1 - alpha * (1 + epsilon)) * base_balance);
       if (sell_price > price && sell_price < 100.0f * price) {
         const float sell_base_amount = base_balance * epsilon / (1 + epsilon);
         orders.emplace_back();
@@ -53,7 +54,8 @@ void RebalancingTrader::Update(const OhlcTick& ohlc_tick,
       }
     }
     const float buy_price =
-        (alpha * (1 - epsilon) * quote_balance) / (1 - alpha * (1 - epsilon));
+        (alpha * (1 - epsilon) * quote_balance) /
+        ((1 - alpha * (1 - epsilon)) * base_balance);
     if (buy_price < price && buy_price > price / 100.0f) {
       const float buy_base_amount = base_balance * epsilon / (1 - epsilon);
       orders.emplace_back();
-- 
2.43.0


From 83713765ed2dbdff25e16771c2a4698920142f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:35 +0000
Subject: [PATCH 13/18] fix: reject CSV rows whose values have something glued
 to them

A number followed by text (or by what a zeroed part of the file left of
other rows) was imported up to the text, losing the rest of the row or the
rows after it. In side input, a fractional time became a whole time and an
extra signal.
---
 convert.cc | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/convert.cc b/convert.cc
index 8df048b..37e7c6d 100644
--- a/convert.cc
+++ b/convert.cc
@@ -60,6 +60,18 @@ void CheckOk(const absl::Status status) {
   }
 }
 
+// Returns true if the field that ends at the given position of the CSV line is
+// not followed by anything but whitespace or the next field.
+bool IsEndOfCsvField(const std::string& line, size_t pos) {
+  pos = line.find_first_not_of(" \t\r", pos);
+  return pos == std::string::npos || line[pos] == ',';
+}
+
+// The same for the last value read from a stream of space separated values.
+bool IsEndOfField(std::istream& is) {
+  return is.eof() || std::isspace(is.peek());
+}
+
 // Reads the input CSV file containing the historical prices.
 absl::StatusOr<PriceHistory> ReadPriceHistoryFromCsvFile(
     const std::string& file_name, const absl::Time start_time,
@@ -83,8 +95,10 @@ absl::StatusOr<PriceHistory> ReadPriceHistoryFromCsvFile(
   PriceHistory price_history;
   while (std::getline(infile, line)) {
     ++row;
-    if (std::sscanf(line.c_str(), "%lld,%f,%f", &timestamp_sec, &price,
-                    &volume) != 3) {
+    int length = 0;
+    if (std::sscanf(line.c_str(), "%lld,%f,%f%n", &timestamp_sec, &price,
+                    &volume, &length) != 3 ||
+        !IsEndOfCsvField(line, length)) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Cannot parse the line %d: %s", row, line));
     }
@@ -147,9 +161,11 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromCsvFile(
   OhlcHistory ohlc_history;
   while (std::getline(infile, line)) {
     ++row;
-    if (std::sscanf(line.c_str(), "%lld,%f,%f,%f,%f,%f",  // nowrap
-                    &timestamp_sec, &open, &high, &low, &close,
-                    &volume) != 6) {
+    int length = 0;
+    if (std::sscanf(line.c_str(), "%lld,%f,%f,%f,%f,%f%n",  // nowrap
+                    &timestamp_sec, &open, &high, &low, &close, &volume,
+                    &length) != 6 ||
+        !IsEndOfCsvField(line, length)) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Cannot parse the line %d: %s", row, line));
     }
@@ -216,7 +232,7 @@ absl::StatusOr<SideHistory> ReadSideHistoryFromCsvFile(
     ++row;
     std::replace(line.begin(), line.end(), ',', ' ');
     std::istringstream iss(line);
-    if (!(iss >> timestamp_sec)) {
+    if (!(iss >> timestamp_sec) || !IsEndOfField(iss)) {
       return absl::InvalidArgumentError(absl::StrFormat(
           "Cannot parse the timestamp on the line %d: %s", row, line));
     }
@@ -234,7 +250,7 @@ absl::StatusOr<SideHistory> ReadSideHistoryFromCsvFile(
     side_history.emplace_back();
     side_history.back().set_timestamp_sec(timestamp_sec);
     while (!(iss >> std::ws).eof()) {
-      if (!(iss >> signal)) {
+      if (!(iss >> signal) || !IsEndOfField(iss)) {
         return absl::InvalidArgumentError(
             absl::StrFormat("Cannot parse the line %d: %s", row, line));
       }
-- 
2.43.0


From 78ef374f8a575a21800a4e3f71feb09b9edbd13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:28 +0000
Subject: [PATCH 14/18] fix: refuse CSV timestamps that are out of range

A timestamp beyond 64 bits was silently imported as another time.
---
 convert.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/convert.cc b/convert.cc
index 37e7c6d..c4cbebe 100644
--- a/convert.cc
+++ b/convert.cc
@@ -1,6 +1,8 @@
 // Copyright © 2023 Peter Cerno. All rights reserved.
 
+#include <cerrno>
 #include <cmath>
+#include <cstdlib>
 
 #include "absl/flags/flag.h"
 #include "absl/flags/parse.h"
@@ -72,6 +74,14 @@ bool IsEndOfField(std::istream& is) {
   return is.eof() || std::isspace(is.peek());
 }
 
+// Returns true if the timestamp at the beginning of the CSV line (if any) is
+// not out of range.
+bool IsCsvTimestampInRange(const std::string& line) {
+  errno = 0;
+  std::strtoll(line.c_str(), nullptr, 10);
+  return errno != ERANGE;
+}
+
 // Reads the input CSV file containing the historical prices.
 absl::StatusOr<PriceHistory> ReadPriceHistoryFromCsvFile(
     const std::string& file_name, const absl::Time start_time,
@@ -96,7 +106,8 @@ absl::StatusOr<PriceHistory> ReadPriceHistoryFromCsvFile(
   while (std::getline(infile, line)) {
     ++row;
     int length = 0;
-    if (std::sscanf(line.c_str(), "%lld,%f,%f%n", &timestamp_sec, &price,
+    if (!IsCsvTimestampInRange(line) ||
+        std::sscanf(line.c_str(), "%lld,%f,%f%n", &timestamp_sec, &price,
                     &volume, &length) != 3 ||
         !IsEndOfCsvField(line, length)) {
       return absl::InvalidArgumentError(
@@ -162,7 +173,8 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromCsvFile(
   while (std::getline(infile, line)) {
     ++row;
     int length = 0;
-    if (std::sscanf(line.c_str(), "%lld,%f,%f,%f,%f,%f%n",  // nowrap
+    if (!IsCsvTimestampInRange(line) ||
+        std::sscanf(line.c_str(), "%lld,%f,%f,%f,%f,%f%n",  // nowrap
                     &timestamp_sec, &open, &high, &low, &close, &volume,
                     &length) != 6 ||
         !IsEndOfCsvField(line, length)) {
-- 
2.43.0


From 5392f4458926b1c26303b71c2e311eb9a828d48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:51 +0000
Subject: [PATCH 15/18] fix: refuse history files with an unreadable record
 length

A malformed length was taken for the end of the history, although there was
more data.
---
 util/proto.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/proto.h b/util/proto.h
index 7dfac1d..427066a 100644
--- a/util/proto.h
+++ b/util/proto.h
@@ -76,9 +76,11 @@ absl::Status ReadDelimitedMessagesFromIStream(
     bool parsed = google::protobuf::util::ParseDelimitedFromZeroCopyStream(
         &message, &gzip_stream, &clean_eof);
     if (!parsed) {
+#ifndef HAVE_ZLIB
       if (clean_eof && !stream.bad()) {
         return absl::OkStatus();
       }
+#endif
       return absl::InvalidArgumentError("Cannot parse the input stream");
     }
     ReaderStatus reader_status = reader(message);
-- 
2.43.0


From ed5561f02689f991022e37b07507a562c8f5b1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:06 +0000
Subject: [PATCH 16/18] fix: refuse a sampling rate that is not positive

---
 convert.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/convert.cc b/convert.cc
index c4cbebe..7c6f04e 100644
--- a/convert.cc
+++ b/convert.cc
@@ -481,6 +481,11 @@ int main(int argc, char* argv[]) {
 
   absl::ParseCommandLine(argc, argv);
 
+  if (absl::GetFlag(FLAGS_sampling_rate_sec) <= 0) {
+    LogError("The sampling rate must be positive");
+    std::exit(EXIT_FAILURE);
+  }
+
   const absl::StatusOr<absl::Time> start_time_status =
       ParseTime(absl::GetFlag(FLAGS_start_time));
   CheckOk(start_time_status.status());
-- 
2.43.0


From 111272eb01970488cbdb4340d50acebdeb516826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:06 +0000
Subject: [PATCH 17/18] fix: refuse unknown traders, negative evaluation
 periods and impossible portfolios

---
 trader.cc | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/trader.cc b/trader.cc
index a0a1e5d..278a5ba 100644
--- a/trader.cc
+++ b/trader.cc
@@ -1,5 +1,7 @@
 // Copyright © 2023 Peter Cerno. All rights reserved.
 
+#include <cmath>
+
 #include "absl/flags/flag.h"
 #include "absl/flags/parse.h"
 #include "absl/memory/memory.h"
@@ -55,6 +57,26 @@ void CheckOk(const absl::Status status) {
   }
 }
 
+// Checks the flags that cannot have an arbitrary value.
+absl::Status CheckFlags() {
+  const std::string trader = absl::GetFlag(FLAGS_trader);
+  if (trader != "rebalancing" && trader != "stop") {
+    return absl::InvalidArgumentError(
+        absl::StrFormat("Unknown trader: %s", trader));
+  }
+  if (absl::GetFlag(FLAGS_evaluation_period_months) < 0) {
+    return absl::InvalidArgumentError("Negative evaluation period");
+  }
+  const float base_balance = absl::GetFlag(FLAGS_start_base_balance);
+  const float quote_balance = absl::GetFlag(FLAGS_start_quote_balance);
+  if (!std::isfinite(base_balance) || !std::isfinite(quote_balance) ||
+      base_balance < 0 || quote_balance < 0 ||
+      (base_balance == 0 && quote_balance == 0)) {
+    return absl::InvalidArgumentError("Invalid starting balances");
+  }
+  return absl::OkStatus();
+}
+
 // Returns the trader's AccountConfig based on the flags (and default values).
 AccountConfig GetAccountConfig() {
   AccountConfig config;
@@ -167,6 +189,7 @@ int main(int argc, char* argv[]) {
   GOOGLE_PROTOBUF_VERIFY_VERSION;
 
   absl::ParseCommandLine(argc, argv);
+  CheckOk(CheckFlags());
 
   const AccountConfig account_config = GetAccountConfig();
   LogInfo("Trader AccountConfig:");
-- 
2.43.0


From ab734b79f0d4a9a52c28427cb48d0b1acfb96929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:40 +0000
Subject: [PATCH 18/18] fix: the score of many evaluation periods must not
 overflow or underflow

---
 eval/eval.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/eval/eval.cc b/eval/eval.cc
index 404f969..2a8735f 100644
--- a/eval/eval.cc
+++ b/eval/eval.cc
@@ -26,12 +26,17 @@ float GetGeometricAverage(const C& container, F selector) {
   if (container.empty()) {
     return 0;
   }
+  // The product is mul * 2^exponent (it may be out of the range of double).
   double mul = 1;
+  double exponent = 0;
   for (const auto& element : container) {
-    mul *= selector(element);
+    int element_exponent = 0;
+    mul = std::frexp(mul * selector(element), &element_exponent);
+    exponent += element_exponent;
   }
   assert(mul >= 0);
-  return static_cast<float>(std::pow(mul, 1.0 / container.size()));
+  return static_cast<float>(std::pow(mul, 1.0 / container.size()) *
+                            std::exp2(exponent / container.size()));
 }
 }  // namespace
 
-- 
2.43.0

