"""Reference model of the trading simulation: an explicit list of positions."""
from .core import Skip

STATS = ("number_of_trading_days", "number_of_buy_signals", "number_of_ignored_buy_signals",
         "number_of_sell_signals", "number_of_ignored_sell_signals", "last_stock_value",
         "last_exposure", "last_open_long_positions", "last_open_short_positions",
         "last_portfolio_value", "last_earnings", "final_balance")
COLUMNS = ["signal", "open_trading_action", "stock_value", "exposure", "portfolio_value",
           "earnings", "balance"]


def run(prices, signals, cap=None, factor=1.5):
    """(rows, open positions, events): one dict per simulated day"""
    rows, book = [], []
    earned = 0.0
    events = set()
    for i, (price, signal) in enumerate(zip(prices, signals)):
        action = "none"
        if i > 0:
            keep = []
            for kind, entry in book:
                if kind == "long" and price > entry:
                    earned += price - entry
                    events.add("long closed")
                elif kind == "short" and price < entry:
                    earned += entry - price
                    events.add("short closed")
                else:
                    keep.append((kind, entry))
            book = keep
            used = sum(e if k == "long" else factor * e for k, e in book)
            kind = {"buy": "long", "sell": "short"}.get(signal)
            if kind:
                cost = price if kind == "long" else factor * price
                if cap is not None:
                    gap = cap - (used + cost)
                    if gap != 0 and abs(gap) < 1e-7 * max(1.0, cap):
                        raise Skip()                       # decided by float noise
                    if gap == 0:
                        events.add("exactly at the limit")
                if cap is None or used + cost <= cap:
                    book.append((kind, price))
                    action = kind
                    events.add("opened " + kind)
                else:
                    events.add("refused " + kind)
        longs = sum(k == "long" for k, _ in book)
        shorts = len(book) - longs
        if longs and shorts:
            events.add("both sides open")
        exposure = sum(e if k == "long" else factor * e for k, e in book)
        value = price * (longs - shorts)
        rows.append({"signal": signal, "open_trading_action": action, "stock_value": price,
                     "exposure": exposure, "portfolio_value": value, "earnings": earned,
                     "balance": earned + value})
    return rows, book, events


def stats(rows, book):
    last = rows[-1] if rows else None
    return {
        "number_of_trading_days": len(rows),
        "number_of_buy_signals": sum(r["signal"] == "buy" for r in rows),
        "number_of_ignored_buy_signals": sum(
            r["signal"] == "buy" and r["open_trading_action"] == "none" for r in rows),
        "number_of_sell_signals": sum(r["signal"] == "sell" for r in rows),
        "number_of_ignored_sell_signals": sum(
            r["signal"] == "sell" and r["open_trading_action"] == "none" for r in rows),
        "last_stock_value": last["stock_value"] if last else 0.0,
        "last_exposure": last["exposure"] if last else 0.0,
        "last_open_long_positions": sum(k == "long" for k, _ in book),
        "last_open_short_positions": sum(k == "short" for k, _ in book),
        "last_portfolio_value": last["portfolio_value"] if last else 0.0,
        "last_earnings": last["earnings"] if last else 0.0,
        "final_balance": last["balance"] if last else 0.0,
    }
