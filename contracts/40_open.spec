package github.com/cespedes/accounting

// ---- opening of data sources (P20) and the registry of drivers (P23)

guard drivers by driversMu P20 P23

// the ledger was loaded by a driver from an address
fun loadedBy(l: *Ledger, d: Driver, address: string): bool
fun openError(d: Driver, address: string): error

iface Driver.Open
  params address backend
  modifies Ledger.connection, Ledger.transferAccount, Ledger.Accounts, Ledger.Transactions, Ledger.Currencies, Ledger.Prices, Ledger.Comments, Ledger.Assertions, Ledger.SplitPrices, Ledger.DefaultCurrency, Backend.Ledger
  ensures result1 == openError(self, address)
  ensures result1 == nil ==> backend.Ledger > 0 && loadedBy(backend.Ledger, self, address)

def drv(s) := vals(drivers)[s]
def present(s) := dom(drivers)[s] && vals(drivers)[s] != nil

func init
  props P20 P23
  modifies global(drivers), global(defaultSchemes), mem(string), mapdom(map[string]Driver), mapval(map[string]Driver), Account.Name, Account.Children, Account.Code, Account.ID, Account.Level, Account.Parent, Account.Splits, Account.StartBalance
  ensures drivers != nil
  ensures first: len(defaultSchemes) > 0 && defaultSchemes[0] == "ledger"

func Open
  props P20 P23
  // what Fill needs is what the drivers guarantee (P17)
  option framed (*Ledger).Fill
  requires free: locks[driversMu] == 0
  requires drivers: drivers != nil
  requires schemes: len(defaultSchemes) > 0 && defaultSchemes[0] == "ledger"
  modifies Ledger.connection, Ledger.transferAccount, Ledger.Accounts, Ledger.Transactions, Ledger.Currencies, Ledger.Prices, Ledger.Comments, Ledger.Assertions, Ledger.SplitPrices, Ledger.DefaultCurrency, Backend.Ledger, Backend.ready
    , fresh mem(*Account), mem(*Transaction), mem(*Price), fresh mem(*Split), fresh mem(Value), mem(string), mapdom(map[any][]string), mapval(map[any][]string), Account.Splits, Account.Children, Account.Level, Split.Balance, Split.Transaction, Split.Time, Split.Value, Transaction.Splits, fresh Account.Name, fresh Account.Code, fresh Account.ID, fresh Account.Parent, fresh Account.StartBalance, fresh Price.Currency, fresh Price.Value, fresh Price.Time
  ensures free: locks[driversMu] == 0
  ensures kept: drivers == old(drivers)
  ensures either: result == nil <==> result1 != nil
  ensures address: !urlok(dataSource) ==> result1 != nil
  ensures scheme: urlok(dataSource) && urlscheme(dataSource) != "" && !present(urlscheme(dataSource)) ==> result1 != nil
  ensures refused: urlok(dataSource) && urlscheme(dataSource) != "" && openError(drv(urlscheme(dataSource)), dataSource) != nil ==> result1 != nil
  ensures loaded: urlok(dataSource) && urlscheme(dataSource) != "" && result1 == nil ==> loadedBy(result, drv(urlscheme(dataSource)), dataSource)
  ensures plain-refused: urlok(dataSource) && urlscheme(dataSource) == "" && present("ledger") && openError(drv("ledger"), dataSource) != nil ==> result1 != nil
  ensures plain: urlok(dataSource) && urlscheme(dataSource) == "" && present("ledger") && result1 == nil ==> loadedBy(result, drv("ledger"), dataSource)
  inv 0 it(0) > 0 && present(defaultSchemes[0]) ==> backend == defaultSchemes[0]
  inv 0 it(0) == 0 ==> backend == ""

func Register
  props P20 P23
  requires free: locks[driversMu] == 0
  requires drivers: drivers != nil
  panics driver == nil || name in drivers
  modifies mapdom(map[string]Driver), mapval(map[string]Driver)
  onpanic free: locks[driversMu] == 0
  onpanic kept: dom(drivers) == old(dom(drivers)) && vals(drivers) == old(vals(drivers))
  ensures free: locks[driversMu] == 0
  ensures accepted: driver != nil && !old(name in drivers)
  ensures registered: dom(drivers) == store(old(dom(drivers)), name, true) && vals(drivers) == store(old(vals(drivers)), name, driver)

