//! Pinned value information tables (EN 13757-3 as the pinned revision spells
//! the names). Generated once; changes in the tree do not change them.

/// (plain symbol, UCUM symbol or "", exponent)
pub type Unit = (&'static str, &'static str, i32);
pub struct Vi {
    pub labels: &'static [&'static str],
    pub units: &'static [Unit],
    pub scale: i32,
}
const fn v(labels: &'static [&'static str], units: &'static [Unit], scale: i32) -> Option<Vi> {
    Some(Vi {
        labels,
        units,
        scale,
    })
}

#[rustfmt::skip]
pub static PRIMARY: [Option<Vi>; 128] = [
    v(&["Energy"], &[("W", "W", 1), ("h", "h", 1)], -3), // 00
    v(&["Energy"], &[("W", "W", 1), ("h", "h", 1)], -2), // 01
    v(&["Energy"], &[("W", "W", 1), ("h", "h", 1)], -1), // 02
    v(&["Energy"], &[("W", "W", 1), ("h", "h", 1)], 0), // 03
    v(&["Energy"], &[("W", "W", 1), ("h", "h", 1)], 1), // 04
    v(&["Energy"], &[("W", "W", 1), ("h", "h", 1)], 2), // 05
    v(&["Energy"], &[("W", "W", 1), ("h", "h", 1)], 3), // 06
    v(&["Energy"], &[("W", "W", 1), ("h", "h", 1)], 4), // 07
    v(&["Energy"], &[("J", "J", 1)], 0), // 08
    v(&["Energy"], &[("J", "J", 1)], 1), // 09
    v(&["Energy"], &[("J", "J", 1)], 2), // 0A
    v(&["Energy"], &[("J", "J", 1)], 3), // 0B
    v(&["Energy"], &[("J", "J", 1)], 4), // 0C
    v(&["Energy"], &[("J", "J", 1)], 5), // 0D
    v(&["Energy"], &[("J", "J", 1)], 6), // 0E
    v(&["Energy"], &[("J", "J", 1)], 7), // 0F
    v(&["Volume"], &[("m", "m", 3)], -6), // 10
    v(&["Volume"], &[("m", "m", 3)], -5), // 11
    v(&["Volume"], &[("m", "m", 3)], -4), // 12
    v(&["Volume"], &[("m", "m", 3)], -3), // 13
    v(&["Volume"], &[("m", "m", 3)], -2), // 14
    v(&["Volume"], &[("m", "m", 3)], -1), // 15
    v(&["Volume"], &[("m", "m", 3)], 0), // 16
    v(&["Volume"], &[("m", "m", 3)], 1), // 17
    v(&["Mass"], &[("Kg", "kg", 1)], -3), // 18
    v(&["Mass"], &[("Kg", "kg", 1)], -2), // 19
    v(&["Mass"], &[("Kg", "kg", 1)], -1), // 1A
    v(&["Mass"], &[("Kg", "kg", 1)], 0), // 1B
    v(&["Mass"], &[("Kg", "kg", 1)], 1), // 1C
    v(&["Mass"], &[("Kg", "kg", 1)], 2), // 1D
    v(&["Mass"], &[("Kg", "kg", 1)], 3), // 1E
    v(&["Mass"], &[("Kg", "kg", 1)], 4), // 1F
    v(&["On time"], &[("s", "s", 1)], 0), // 20
    v(&["On time"], &[("min", "min", 1)], 0), // 21
    v(&["On time"], &[("h", "h", 1)], 0), // 22
    v(&["On time"], &[("day", "d", 1)], 0), // 23
    v(&["Operating time"], &[("s", "s", 1)], 0), // 24
    v(&["Operating time"], &[("min", "min", 1)], 0), // 25
    v(&["Operating time"], &[("h", "h", 1)], 0), // 26
    v(&["Operating time"], &[("day", "d", 1)], 0), // 27
    v(&["Power"], &[("W", "W", 1)], -3), // 28
    v(&["Power"], &[("W", "W", 1)], -2), // 29
    v(&["Power"], &[("W", "W", 1)], -1), // 2A
    v(&["Power"], &[("W", "W", 1)], 0), // 2B
    v(&["Power"], &[("W", "W", 1)], 1), // 2C
    v(&["Power"], &[("W", "W", 1)], 2), // 2D
    v(&["Power"], &[("W", "W", 1)], 3), // 2E
    v(&["Power"], &[("W", "W", 1)], 4), // 2F
    v(&["Power"], &[("J", "J", 1), ("h", "h", -1)], 0), // 30
    v(&["Power"], &[("J", "J", 1), ("h", "h", -1)], 1), // 31
    v(&["Power"], &[("J", "J", 1), ("h", "h", -1)], 2), // 32
    v(&["Power"], &[("J", "J", 1), ("h", "h", -1)], 3), // 33
    v(&["Power"], &[("J", "J", 1), ("h", "h", -1)], 4), // 34
    v(&["Power"], &[("J", "J", 1), ("h", "h", -1)], 5), // 35
    v(&["Power"], &[("J", "J", 1), ("h", "h", -1)], 6), // 36
    v(&["Power"], &[("J", "J", 1), ("h", "h", -1)], 7), // 37
    v(&["Volume flow"], &[("m", "m", 3), ("h", "h", -1)], -6), // 38
    v(&["Volume flow"], &[("m", "m", 3), ("h", "h", -1)], -5), // 39
    v(&["Volume flow"], &[("m", "m", 3), ("h", "h", -1)], -4), // 3A
    v(&["Volume flow"], &[("m", "m", 3), ("h", "h", -1)], -3), // 3B
    v(&["Volume flow"], &[("m", "m", 3), ("h", "h", -1)], -2), // 3C
    v(&["Volume flow"], &[("m", "m", 3), ("h", "h", -1)], -1), // 3D
    v(&["Volume flow"], &[("m", "m", 3), ("h", "h", -1)], 0), // 3E
    v(&["Volume flow"], &[("m", "m", 3), ("h", "h", -1)], 1), // 3F
    v(&["Volume flow"], &[("m", "m", 3), ("min", "min", -1)], -7), // 40
    v(&["Volume flow"], &[("m", "m", 3), ("min", "min", -1)], -6), // 41
    v(&["Volume flow"], &[("m", "m", 3), ("min", "min", -1)], -5), // 42
    v(&["Volume flow"], &[("m", "m", 3), ("min", "min", -1)], -4), // 43
    v(&["Volume flow"], &[("m", "m", 3), ("min", "min", -1)], -3), // 44
    v(&["Volume flow"], &[("m", "m", 3), ("min", "min", -1)], -2), // 45
    v(&["Volume flow"], &[("m", "m", 3), ("min", "min", -1)], -1), // 46
    v(&["Volume flow"], &[("m", "m", 3), ("min", "min", -1)], 0), // 47
    v(&["Volume flow"], &[("m", "m", 3), ("s", "s", -1)], -9), // 48
    v(&["Volume flow"], &[("m", "m", 3), ("s", "s", -1)], -8), // 49
    v(&["Volume flow"], &[("m", "m", 3), ("s", "s", -1)], -7), // 4A
    v(&["Volume flow"], &[("m", "m", 3), ("s", "s", -1)], -6), // 4B
    v(&["Volume flow"], &[("m", "m", 3), ("s", "s", -1)], -5), // 4C
    v(&["Volume flow"], &[("m", "m", 3), ("s", "s", -1)], -4), // 4D
    v(&["Volume flow"], &[("m", "m", 3), ("s", "s", -1)], -3), // 4E
    v(&["Volume flow"], &[("m", "m", 3), ("s", "s", -1)], -2), // 4F
    v(&["Mass flow"], &[("Kg", "kg", 1), ("h", "h", -1)], -3), // 50
    v(&["Mass flow"], &[("Kg", "kg", 1), ("h", "h", -1)], -2), // 51
    v(&["Mass flow"], &[("Kg", "kg", 1), ("h", "h", -1)], -1), // 52
    v(&["Mass flow"], &[("Kg", "kg", 1), ("h", "h", -1)], 0), // 53
    v(&["Mass flow"], &[("Kg", "kg", 1), ("h", "h", -1)], 1), // 54
    v(&["Mass flow"], &[("Kg", "kg", 1), ("h", "h", -1)], 2), // 55
    v(&["Mass flow"], &[("Kg", "kg", 1), ("h", "h", -1)], 3), // 56
    v(&["Mass flow"], &[("Kg", "kg", 1), ("h", "h", -1)], 4), // 57
    v(&["Flow temperature"], &[("°C", "Cel", 1)], -3), // 58
    v(&["Flow temperature"], &[("°C", "Cel", 1)], -2), // 59
    v(&["Flow temperature"], &[("°C", "Cel", 1)], -1), // 5A
    v(&["Flow temperature"], &[("°C", "Cel", 1)], 0), // 5B
    v(&["Return temperature"], &[("°C", "Cel", 1)], -3), // 5C
    v(&["Return temperature"], &[("°C", "Cel", 1)], -2), // 5D
    v(&["Return temperature"], &[("°C", "Cel", 1)], -1), // 5E
    v(&["Return temperature"], &[("°C", "Cel", 1)], 0), // 5F
    v(&["Temperature difference"], &[("°K", "K", 1)], -3), // 60
    v(&["Temperature difference"], &[("°K", "K", 1)], -2), // 61
    v(&["Temperature difference"], &[("°K", "K", 1)], -1), // 62
    v(&["Temperature difference"], &[("°K", "K", 1)], 0), // 63
    v(&["External temperature"], &[("°C", "Cel", 1)], -3), // 64
    v(&["External temperature"], &[("°C", "Cel", 1)], -2), // 65
    v(&["External temperature"], &[("°C", "Cel", 1)], -1), // 66
    v(&["External temperature"], &[("°C", "Cel", 1)], 0), // 67
    v(&["Pressure"], &[("Bar", "bar", 1)], -3), // 68
    v(&["Pressure"], &[("Bar", "bar", 1)], -2), // 69
    v(&["Pressure"], &[("Bar", "bar", 1)], -1), // 6A
    v(&["Pressure"], &[("Bar", "bar", 1)], 0), // 6B
    v(&["Time point (date)"], &[], 0), // 6C
    v(&["Time point (date and time)"], &[], 0), // 6D
    v(&["Dimensionless HCA"], &[], 0), // 6E
    None, // 6F
    v(&["Averaging duration"], &[("s", "s", 1)], 0), // 70
    v(&["Averaging duration"], &[("min", "min", 1)], 0), // 71
    v(&["Averaging duration"], &[("h", "h", 1)], 0), // 72
    v(&["Averaging duration"], &[("day", "d", 1)], 0), // 73
    v(&["Actuality duration"], &[("s", "s", 1)], 0), // 74
    v(&["Actuality duration"], &[("min", "min", 1)], 0), // 75
    v(&["Actuality duration"], &[("h", "h", 1)], 0), // 76
    v(&["Actuality duration"], &[("day", "d", 1)], 0), // 77
    v(&["Fabrication number"], &[], 0), // 78
    v(&["Enhanced identification"], &[], 0), // 79
    v(&["Address"], &[], 0), // 7A
    v(&[], &[], 0), // 7B
    v(&["Plain text"], &[], 0), // 7C
    None, // 7D
    v(&["Manufacturer specific"], &[], 0), // 7E
    v(&["Manufacturer specific"], &[], 0), // 7F
];
#[rustfmt::skip]
pub static FD: [Option<Vi>; 128] = [
    v(&["Credit"], &[("$ (local)", "", 1)], -3), // 00
    v(&["Credit"], &[("$ (local)", "", 1)], -2), // 01
    v(&["Credit"], &[("$ (local)", "", 1)], -1), // 02
    v(&["Credit"], &[("$ (local)", "", 1)], 0), // 03
    v(&["Debit"], &[("$ (local)", "", 1)], -3), // 04
    v(&["Debit"], &[("$ (local)", "", 1)], -2), // 05
    v(&["Debit"], &[("$ (local)", "", 1)], -1), // 06
    v(&["Debit"], &[("$ (local)", "", 1)], 0), // 07
    v(&["Unique message identification or access number"], &[], 0), // 08
    v(&["Device type"], &[], 0), // 09
    v(&["Manufacturer"], &[], 0), // 0A
    v(&["Parameter set identification"], &[], 0), // 0B
    v(&["Model or version"], &[], 0), // 0C
    v(&["Hardware version"], &[], 0), // 0D
    v(&["Metrology firmware version"], &[], 0), // 0E
    v(&["Other software version"], &[], 0), // 0F
    v(&["Customer location"], &[], 0), // 10
    v(&["Customer"], &[], 0), // 11
    v(&["Access code user"], &[], 0), // 12
    v(&["Access code operator"], &[], 0), // 13
    v(&["Access code system operator"], &[], 0), // 14
    v(&["Access code developer"], &[], 0), // 15
    v(&["Password"], &[], 0), // 16
    v(&["Error flags"], &[], 0), // 17
    v(&["Error mask"], &[], 0), // 18
    v(&["Security key"], &[], 0), // 19
    v(&["Digital output", "Binary"], &[], 0), // 1A
    v(&["Digital input", "Binary"], &[], 0), // 1B
    v(&["Baud rate"], &[("Symbol", "", 1), ("s", "s", -1)], 0), // 1C
    v(&["Response delay time"], &[("BitTime", "", 1)], 0), // 1D
    v(&["Retry"], &[], 0), // 1E
    v(&["Remote control"], &[], 0), // 1F
    v(&["First storage for cycle storage"], &[], 0), // 20
    v(&["Last storage for cycle storage"], &[], 0), // 21
    v(&["Size of storage block"], &[], 0), // 22
    v(&["Description of tariff and subunit"], &[], 0), // 23
    v(&["Storage interval"], &[("s", "s", 1)], 0), // 24
    v(&["Storage interval"], &[("min", "min", 1)], 0), // 25
    v(&["Storage interval"], &[("h", "h", 1)], 0), // 26
    v(&["Storage interval"], &[("day", "d", 1)], 0), // 27
    v(&["Storage interval"], &[("month", "mo", 1)], 0), // 28
    v(&["Storage interval"], &[("year", "a", 1)], 0), // 29
    v(&["Reserved"], &[], 0), // 2A
    v(&["Reserved"], &[], 0), // 2B
    v(&["Reserved"], &[], 0), // 2C
    v(&["Reserved"], &[], 0), // 2D
    v(&["Reserved"], &[], 0), // 2E
    v(&["Reserved"], &[], 0), // 2F
    v(&["Dimensionless HCA"], &[], 0), // 30
    v(&["Data container for wireless M-Bus protocol"], &[], 0), // 31
    v(&["Period of normal data transmission"], &[("s", "s", 1)], 0), // 32
    v(&["Period of normal data transmission"], &[("min", "min", 1)], 0), // 33
    v(&["Period of normal data transmission"], &[("h", "h", 1)], 0), // 34
    v(&["Period of normal data transmission"], &[("day", "d", 1)], 0), // 35
    v(&["Reserved"], &[], 0), // 36
    v(&["Reserved"], &[], 0), // 37
    v(&["Reserved"], &[], 0), // 38
    v(&["Reserved"], &[], 0), // 39
    v(&["Dimensionless"], &[], 0), // 3A
    v(&["Reserved"], &[], 0), // 3B
    v(&["Reserved"], &[], 0), // 3C
    v(&["Reserved"], &[], 0), // 3D
    v(&["Reserved"], &[], 0), // 3E
    v(&["Reserved"], &[], 0), // 3F
    v(&["Voltage"], &[("V", "V", 1)], -9), // 40
    v(&["Voltage"], &[("V", "V", 1)], -8), // 41
    v(&["Voltage"], &[("V", "V", 1)], -7), // 42
    v(&["Voltage"], &[("V", "V", 1)], -6), // 43
    v(&["Voltage"], &[("V", "V", 1)], -5), // 44
    v(&["Voltage"], &[("V", "V", 1)], -4), // 45
    v(&["Voltage"], &[("V", "V", 1)], -3), // 46
    v(&["Voltage"], &[("V", "V", 1)], -2), // 47
    v(&["Voltage"], &[("V", "V", 1)], -1), // 48
    v(&["Voltage"], &[("V", "V", 1)], 0), // 49
    v(&["Voltage"], &[("V", "V", 1)], 1), // 4A
    v(&["Voltage"], &[("V", "V", 1)], 2), // 4B
    v(&["Voltage"], &[("V", "V", 1)], 3), // 4C
    v(&["Voltage"], &[("V", "V", 1)], 4), // 4D
    v(&["Voltage"], &[("V", "V", 1)], 5), // 4E
    v(&["Voltage"], &[("V", "V", 1)], 6), // 4F
    v(&["Current"], &[("A", "A", 1)], -12), // 50
    v(&["Current"], &[("A", "A", 1)], -11), // 51
    v(&["Current"], &[("A", "A", 1)], -10), // 52
    v(&["Current"], &[("A", "A", 1)], -9), // 53
    v(&["Current"], &[("A", "A", 1)], -8), // 54
    v(&["Current"], &[("A", "A", 1)], -7), // 55
    v(&["Current"], &[("A", "A", 1)], -6), // 56
    v(&["Current"], &[("A", "A", 1)], -5), // 57
    v(&["Current"], &[("A", "A", 1)], -4), // 58
    v(&["Current"], &[("A", "A", 1)], -3), // 59
    v(&["Current"], &[("A", "A", 1)], -2), // 5A
    v(&["Current"], &[("A", "A", 1)], -1), // 5B
    v(&["Current"], &[("A", "A", 1)], 0), // 5C
    v(&["Current"], &[("A", "A", 1)], 1), // 5D
    v(&["Current"], &[("A", "A", 1)], 2), // 5E
    v(&["Current"], &[("A", "A", 1)], 3), // 5F
    v(&["Reset counter"], &[], 0), // 60
    v(&["Cumulation counter"], &[], 0), // 61
    v(&["Control signal"], &[], 0), // 62
    v(&["Day of week"], &[], 0), // 63
    v(&["Week number"], &[], 0), // 64
    v(&["Time point of change of tariff"], &[], 0), // 65
    v(&["State of parameter activation"], &[], 0), // 66
    v(&["Special supplier information"], &[], 0), // 67
    v(&["Duration since last cumulation"], &[("h", "h", 1)], 0), // 68
    v(&["Duration since last cumulation"], &[("day", "d", 1)], 0), // 69
    v(&["Duration since last cumulation"], &[("month", "mo", 1)], 0), // 6A
    v(&["Duration since last cumulation"], &[("year", "a", 1)], 0), // 6B
    v(&["Operating time battery"], &[("h", "h", 1)], 0), // 6C
    v(&["Operating time battery"], &[("day", "d", 1)], 0), // 6D
    v(&["Operating time battery"], &[("month", "mo", 1)], 0), // 6E
    v(&["Operating time battery"], &[("year", "a", 1)], 0), // 6F
    v(&["Date and time of battery change"], &[("s", "s", 1)], 0), // 70
    v(&["RF power level"], &[("dBmW", "", 1)], 0), // 71
    v(&["Daylight saving beginning ending deviation"], &[], 0), // 72
    v(&["Listening window management data"], &[], 0), // 73
    v(&["Remaining battery life time"], &[], 0), // 74
    v(&["Number of times the meter was stopped"], &[], 0), // 75
    v(&["Data container for manufacturer specific protocol"], &[], 0), // 76
    v(&["Reserved"], &[], 0), // 77
    v(&["Reserved"], &[], 0), // 78
    v(&["Reserved"], &[], 0), // 79
    v(&["Reserved"], &[], 0), // 7A
    v(&["Reserved"], &[], 0), // 7B
    v(&["Reserved"], &[], 0), // 7C
    v(&["Reserved"], &[], 0), // 7D
    v(&["Reserved"], &[], 0), // 7E
    v(&["Reserved"], &[], 0), // 7F
];
#[rustfmt::skip]
pub static FDFD: [Option<Vi>; 128] = [
    v(&["Currently selected application"], &[], 0), // 00
    v(&["Reserved"], &[], 0), // 01
    v(&["Remaining battery life time"], &[("month", "mo", 1)], 0), // 02
    v(&["Remaining battery life time"], &[("year", "a", 1)], 0), // 03
    v(&["Reserved"], &[], 0), // 04
    v(&["Reserved"], &[], 0), // 05
    v(&["Reserved"], &[], 0), // 06
    v(&["Reserved"], &[], 0), // 07
    v(&["Reserved"], &[], 0), // 08
    v(&["Reserved"], &[], 0), // 09
    v(&["Reserved"], &[], 0), // 0A
    v(&["Reserved"], &[], 0), // 0B
    v(&["Reserved"], &[], 0), // 0C
    v(&["Reserved"], &[], 0), // 0D
    v(&["Reserved"], &[], 0), // 0E
    v(&["Reserved"], &[], 0), // 0F
    v(&["Reserved"], &[], 0), // 10
    v(&["Reserved"], &[], 0), // 11
    v(&["Reserved"], &[], 0), // 12
    v(&["Reserved"], &[], 0), // 13
    v(&["Reserved"], &[], 0), // 14
    v(&["Reserved"], &[], 0), // 15
    v(&["Reserved"], &[], 0), // 16
    v(&["Reserved"], &[], 0), // 17
    v(&["Reserved"], &[], 0), // 18
    v(&["Reserved"], &[], 0), // 19
    v(&["Reserved"], &[], 0), // 1A
    v(&["Reserved"], &[], 0), // 1B
    v(&["Reserved"], &[], 0), // 1C
    v(&["Reserved"], &[], 0), // 1D
    v(&["Reserved"], &[], 0), // 1E
    v(&["Reserved"], &[], 0), // 1F
    v(&["Reserved"], &[], 0), // 20
    v(&["Reserved"], &[], 0), // 21
    v(&["Reserved"], &[], 0), // 22
    v(&["Reserved"], &[], 0), // 23
    v(&["Reserved"], &[], 0), // 24
    v(&["Reserved"], &[], 0), // 25
    v(&["Reserved"], &[], 0), // 26
    v(&["Reserved"], &[], 0), // 27
    v(&["Reserved"], &[], 0), // 28
    v(&["Reserved"], &[], 0), // 29
    v(&["Reserved"], &[], 0), // 2A
    v(&["Reserved"], &[], 0), // 2B
    v(&["Reserved"], &[], 0), // 2C
    v(&["Reserved"], &[], 0), // 2D
    v(&["Reserved"], &[], 0), // 2E
    v(&["Reserved"], &[], 0), // 2F
    v(&["Reserved"], &[], 0), // 30
    v(&["Reserved"], &[], 0), // 31
    v(&["Reserved"], &[], 0), // 32
    v(&["Reserved"], &[], 0), // 33
    v(&["Reserved"], &[], 0), // 34
    v(&["Reserved"], &[], 0), // 35
    v(&["Reserved"], &[], 0), // 36
    v(&["Reserved"], &[], 0), // 37
    v(&["Reserved"], &[], 0), // 38
    v(&["Reserved"], &[], 0), // 39
    v(&["Reserved"], &[], 0), // 3A
    v(&["Reserved"], &[], 0), // 3B
    v(&["Reserved"], &[], 0), // 3C
    v(&["Reserved"], &[], 0), // 3D
    v(&["Moisture level"], &[("%", "%", 1)], 0), // 3E
    v(&["Reserved"], &[], 0), // 3F
    v(&["Reserved"], &[], 0), // 40
    v(&["Reserved"], &[], 0), // 41
    v(&["Reserved"], &[], 0), // 42
    v(&["Reserved"], &[], 0), // 43
    v(&["Reserved"], &[], 0), // 44
    v(&["Reserved"], &[], 0), // 45
    v(&["Reserved"], &[], 0), // 46
    v(&["Reserved"], &[], 0), // 47
    v(&["Reserved"], &[], 0), // 48
    v(&["Reserved"], &[], 0), // 49
    v(&["Reserved"], &[], 0), // 4A
    v(&["Reserved"], &[], 0), // 4B
    v(&["Reserved"], &[], 0), // 4C
    v(&["Reserved"], &[], 0), // 4D
    v(&["Reserved"], &[], 0), // 4E
    v(&["Reserved"], &[], 0), // 4F
    v(&["Reserved"], &[], 0), // 50
    v(&["Reserved"], &[], 0), // 51
    v(&["Reserved"], &[], 0), // 52
    v(&["Reserved"], &[], 0), // 53
    v(&["Reserved"], &[], 0), // 54
    v(&["Reserved"], &[], 0), // 55
    v(&["Reserved"], &[], 0), // 56
    v(&["Reserved"], &[], 0), // 57
    v(&["Reserved"], &[], 0), // 58
    v(&["Reserved"], &[], 0), // 59
    v(&["Reserved"], &[], 0), // 5A
    v(&["Reserved"], &[], 0), // 5B
    v(&["Reserved"], &[], 0), // 5C
    v(&["Reserved"], &[], 0), // 5D
    v(&["Reserved"], &[], 0), // 5E
    v(&["Reserved"], &[], 0), // 5F
    v(&["Reserved"], &[], 0), // 60
    v(&["Reserved"], &[], 0), // 61
    v(&["Reserved"], &[], 0), // 62
    v(&["Reserved"], &[], 0), // 63
    v(&["Reserved"], &[], 0), // 64
    v(&["Reserved"], &[], 0), // 65
    v(&["Reserved"], &[], 0), // 66
    v(&["Reserved"], &[], 0), // 67
    v(&["Reserved"], &[], 0), // 68
    v(&["Reserved"], &[], 0), // 69
    v(&["Reserved"], &[], 0), // 6A
    v(&["Reserved"], &[], 0), // 6B
    v(&["Reserved"], &[], 0), // 6C
    v(&["Reserved"], &[], 0), // 6D
    v(&["Reserved"], &[], 0), // 6E
    v(&["Reserved"], &[], 0), // 6F
    v(&["Reserved"], &[], 0), // 70
    v(&["Reserved"], &[], 0), // 71
    v(&["Reserved"], &[], 0), // 72
    v(&["Reserved"], &[], 0), // 73
    v(&["Reserved"], &[], 0), // 74
    v(&["Reserved"], &[], 0), // 75
    v(&["Reserved"], &[], 0), // 76
    v(&["Reserved"], &[], 0), // 77
    v(&["Reserved"], &[], 0), // 78
    v(&["Reserved"], &[], 0), // 79
    v(&["Reserved"], &[], 0), // 7A
    v(&["Reserved"], &[], 0), // 7B
    v(&["Reserved"], &[], 0), // 7C
    v(&["Reserved"], &[], 0), // 7D
    v(&["Reserved"], &[], 0), // 7E
    v(&["Reserved"], &[], 0), // 7F
];
#[rustfmt::skip]
pub static FB: [Option<Vi>; 128] = [
    v(&["Energy"], &[("W", "W", 1), ("h", "h", 1)], 5), // 00
    v(&["Energy"], &[("W", "W", 1), ("h", "h", 1)], 6), // 01
    v(&["Reactive energy"], &[("W (reactive)", "", 1), ("h", "h", 1)], 3), // 02
    v(&["Reactive energy"], &[("W (reactive)", "", 1), ("h", "h", 1)], 4), // 03
    v(&["Apparent energy"], &[("W (apparent)", "", 1), ("h", "h", 1)], 3), // 04
    v(&["Apparent energy"], &[("W (apparent)", "", 1), ("h", "h", 1)], 4), // 05
    v(&["Coefficient of performance"], &[], -1), // 06
    v(&["Reserved"], &[], 0), // 07
    v(&["Energy"], &[("J", "J", 1)], 8), // 08
    v(&["Energy"], &[("J", "J", 1)], 9), // 09
    v(&["Reserved"], &[], 0), // 0A
    v(&["Reserved"], &[], 0), // 0B
    v(&["Energy"], &[("cal", "cal", 1)], 5), // 0C
    v(&["Energy"], &[("cal", "cal", 1)], 6), // 0D
    v(&["Energy"], &[("cal", "cal", 1)], 7), // 0E
    v(&["Energy"], &[("cal", "cal", 1)], 8), // 0F
    v(&["Volume"], &[("m", "m", 3)], 2), // 10
    v(&["Volume"], &[("m", "m", 3)], 3), // 11
    v(&["Reserved"], &[], 0), // 12
    v(&["Reserved"], &[], 0), // 13
    v(&["Reactive power"], &[("W (reactive)", "", 1)], 0), // 14
    v(&["Reactive power"], &[("W (reactive)", "", 1)], 1), // 15
    v(&["Reactive power"], &[("W (reactive)", "", 1)], 2), // 16
    v(&["Reactive power"], &[("W (reactive)", "", 1)], 3), // 17
    v(&["Mass"], &[("t", "t", 1)], 2), // 18
    v(&["Mass"], &[("t", "t", 1)], 3), // 19
    v(&["Relative humidity"], &[("%", "%", 1)], -1), // 1A
    v(&["Relative humidity"], &[("%", "%", 1)], 0), // 1B
    v(&["Reserved"], &[], 0), // 1C
    v(&["Reserved"], &[], 0), // 1D
    v(&["Reserved"], &[], 0), // 1E
    v(&["Reserved"], &[], 0), // 1F
    v(&["Volume"], &[("ft", "[ft_i]", 3)], 0), // 20
    v(&["Volume"], &[("ft", "[ft_i]", 3)], -1), // 21
    v(&["Reserved"], &[], 0), // 22
    v(&["Phase I-to-U"], &[("°", "", 1)], -1), // 23
    v(&["Reserved"], &[], 0), // 24
    v(&["Reserved"], &[], 0), // 25
    v(&["Reserved"], &[], 0), // 26
    v(&["Reserved"], &[], 0), // 27
    v(&["Power"], &[("W", "W", 1)], 5), // 28
    v(&["Power"], &[("W", "W", 1)], 6), // 29
    v(&["Phase U-to-U"], &[("°", "", 1)], -1), // 2A
    v(&["Phase U-to-I"], &[("°", "", 1)], -1), // 2B
    v(&["Frequency"], &[("Hz", "Hz", 1)], -3), // 2C
    v(&["Frequency"], &[("Hz", "Hz", 1)], -2), // 2D
    v(&["Frequency"], &[("Hz", "Hz", 1)], -1), // 2E
    v(&["Frequency"], &[("Hz", "Hz", 1)], 0), // 2F
    v(&["Power"], &[("J", "J", 1), ("h", "h", -1)], 8), // 30
    v(&["Power"], &[("J", "J", 1), ("h", "h", -1)], 9), // 31
    v(&["Reserved"], &[], 0), // 32
    v(&["Reserved"], &[], 0), // 33
    v(&["Apparent power"], &[("W (apparent)", "", 1)], 0), // 34
    v(&["Apparent power"], &[("W (apparent)", "", 1)], 1), // 35
    v(&["Apparent power"], &[("W (apparent)", "", 1)], 2), // 36
    v(&["Apparent power"], &[("W (apparent)", "", 1)], 3), // 37
    v(&["Reserved"], &[], 0), // 38
    v(&["Reserved"], &[], 0), // 39
    v(&["Reserved"], &[], 0), // 3A
    v(&["Reserved"], &[], 0), // 3B
    v(&["Reserved"], &[], 0), // 3C
    v(&["Reserved"], &[], 0), // 3D
    v(&["Reserved"], &[], 0), // 3E
    v(&["Reserved"], &[], 0), // 3F
    v(&["Reserved"], &[], 0), // 40
    v(&["Reserved"], &[], 0), // 41
    v(&["Reserved"], &[], 0), // 42
    v(&["Reserved"], &[], 0), // 43
    v(&["Reserved"], &[], 0), // 44
    v(&["Reserved"], &[], 0), // 45
    v(&["Reserved"], &[], 0), // 46
    v(&["Reserved"], &[], 0), // 47
    v(&["Reserved"], &[], 0), // 48
    v(&["Reserved"], &[], 0), // 49
    v(&["Reserved"], &[], 0), // 4A
    v(&["Reserved"], &[], 0), // 4B
    v(&["Reserved"], &[], 0), // 4C
    v(&["Reserved"], &[], 0), // 4D
    v(&["Reserved"], &[], 0), // 4E
    v(&["Reserved"], &[], 0), // 4F
    v(&["Reserved"], &[], 0), // 50
    v(&["Reserved"], &[], 0), // 51
    v(&["Reserved"], &[], 0), // 52
    v(&["Reserved"], &[], 0), // 53
    v(&["Reserved"], &[], 0), // 54
    v(&["Reserved"], &[], 0), // 55
    v(&["Reserved"], &[], 0), // 56
    v(&["Reserved"], &[], 0), // 57
    v(&["Flow temperature"], &[("°F", "[degF]", 1)], -3), // 58
    v(&["Flow temperature"], &[("°F", "[degF]", 1)], -2), // 59
    v(&["Flow temperature"], &[("°F", "[degF]", 1)], -1), // 5A
    v(&["Flow temperature"], &[("°F", "[degF]", 1)], 0), // 5B
    v(&["Return temperature"], &[("°F", "[degF]", 1)], -3), // 5C
    v(&["Return temperature"], &[("°F", "[degF]", 1)], -2), // 5D
    v(&["Return temperature"], &[("°F", "[degF]", 1)], -1), // 5E
    v(&["Return temperature"], &[("°F", "[degF]", 1)], 0), // 5F
    v(&["Temperature difference"], &[("°F", "[degF]", 1)], -3), // 60
    v(&["Temperature difference"], &[("°F", "[degF]", 1)], -2), // 61
    v(&["Temperature difference"], &[("°F", "[degF]", 1)], -1), // 62
    v(&["Temperature difference"], &[("°F", "[degF]", 1)], 0), // 63
    v(&["External temperature"], &[("°F", "[degF]", 1)], -3), // 64
    v(&["External temperature"], &[("°F", "[degF]", 1)], -2), // 65
    v(&["External temperature"], &[("°F", "[degF]", 1)], -1), // 66
    v(&["External temperature"], &[("°F", "[degF]", 1)], 0), // 67
    v(&["Resulting rating factor"], &[("HCAUnit", "", 1)], 0), // 68
    v(&["Thermal output rating factor"], &[("HCAUnit", "", 1)], 0), // 69
    v(&["Thermal coupling rating factor overall"], &[("HCAUnit", "", 1)], 0), // 6A
    v(&["Thermal coupling rating room side"], &[("HCAUnit", "", 1)], 0), // 6B
    v(&["Thermal coupling rating factor heating side"], &[("HCAUnit", "", 1)], 0), // 6C
    v(&["Low temperature rating factor"], &[("HCAUnit", "", 1)], 0), // 6D
    v(&["Display output scaling factor"], &[("HCAUnit", "", 1)], 0), // 6E
    v(&["Reserved"], &[], 0), // 6F
    v(&["Cold warm temperature limit"], &[("°F", "[degF]", 1)], -3), // 70
    v(&["Cold warm temperature limit"], &[("°F", "[degF]", 1)], -2), // 71
    v(&["Cold warm temperature limit"], &[("°F", "[degF]", 1)], -1), // 72
    v(&["Cold warm temperature limit"], &[("°F", "[degF]", 1)], 0), // 73
    v(&["Cold warm temperature limit"], &[("°C", "Cel", 1)], -3), // 74
    v(&["Cold warm temperature limit"], &[("°C", "Cel", 1)], -2), // 75
    v(&["Cold warm temperature limit"], &[("°C", "Cel", 1)], -1), // 76
    v(&["Cold warm temperature limit"], &[("°C", "Cel", 1)], 0), // 77
    v(&["Cumulative maximum of active power"], &[("W", "W", 1)], -3), // 78
    v(&["Cumulative maximum of active power"], &[("W", "W", 1)], -2), // 79
    v(&["Cumulative maximum of active power"], &[("W", "W", 1)], -1), // 7A
    v(&["Cumulative maximum of active power"], &[("W", "W", 1)], 0), // 7B
    v(&["Cumulative maximum of active power"], &[("W", "W", 1)], 1), // 7C
    v(&["Cumulative maximum of active power"], &[("W", "W", 1)], 2), // 7D
    v(&["Cumulative maximum of active power"], &[("W", "W", 1)], 3), // 7E
    v(&["Cumulative maximum of active power"], &[("W", "W", 1)], 4), // 7F
];
#[rustfmt::skip]
pub static VIFE: [Option<Vi>; 128] = [
    v(&["Reserved for object actions"], &[], 0), // 00
    v(&["Reserved for object actions"], &[], 0), // 01
    v(&["Reserved for object actions"], &[], 0), // 02
    v(&["Reserved for object actions"], &[], 0), // 03
    v(&["Reserved for object actions"], &[], 0), // 04
    v(&["Reserved for object actions"], &[], 0), // 05
    v(&["Reserved for object actions"], &[], 0), // 06
    v(&["Reserved for object actions"], &[], 0), // 07
    v(&["Reserved for object actions"], &[], 0), // 08
    v(&["Reserved for object actions"], &[], 0), // 09
    v(&["Reserved for object actions"], &[], 0), // 0A
    v(&["Reserved for object actions"], &[], 0), // 0B
    v(&["Reserved for object actions"], &[], 0), // 0C
    v(&["Reserved for object actions"], &[], 0), // 0D
    v(&["Reserved for object actions"], &[], 0), // 0E
    v(&["Reserved for object actions"], &[], 0), // 0F
    v(&["Reserved"], &[], 0), // 10
    v(&["Reserved"], &[], 0), // 11
    v(&["Averaged"], &[], 0), // 12
    v(&["Inverse compact profile"], &[], 0), // 13
    v(&["Relative deviation"], &[], 0), // 14
    v(&["Record error codes"], &[], 0), // 15
    v(&["Record error codes"], &[], 0), // 16
    v(&["Record error codes"], &[], 0), // 17
    v(&["Record error codes"], &[], 0), // 18
    v(&["Record error codes"], &[], 0), // 19
    v(&["Record error codes"], &[], 0), // 1A
    v(&["Record error codes"], &[], 0), // 1B
    v(&["Record error codes"], &[], 0), // 1C
    v(&["Standard conform data content"], &[], 0), // 1D
    v(&["Compact profile with register numbers"], &[], 0), // 1E
    v(&["Compact profile"], &[], 0), // 1F
    v(&[], &[("s", "s", -1)], 0), // 20
    v(&[], &[("min", "min", -1)], 0), // 21
    v(&[], &[("h", "h", -1)], 0), // 22
    v(&[], &[("day", "d", -1)], 0), // 23
    v(&[], &[("week", "wk", -1)], 0), // 24
    v(&[], &[("month", "mo", -1)], 0), // 25
    v(&[], &[("year", "a", -1)], 0), // 26
    v(&[], &[("revolution", "", -1)], 0), // 27
    v(&[], &[("increment", "", 1), ("InputPulseOnChannel0", "", -1)], 0), // 28
    v(&[], &[("increment", "", 1), ("InputPulseOnChannel1", "", -1)], 0), // 29
    v(&[], &[("increment", "", 1), ("OutputPulseOnChannel0", "", -1)], 0), // 2A
    v(&[], &[("increment", "", 1), ("OutputPulseOnChannel1", "", -1)], 0), // 2B
    v(&[], &[("l", "L", -1)], 0), // 2C
    v(&[], &[("m", "m", -3)], 0), // 2D
    v(&[], &[("Kg", "kg", -1)], 0), // 2E
    v(&[], &[("°K", "K", -1)], 0), // 2F
    v(&[], &[("W", "W", -1), ("h", "h", -1)], -3), // 30
    v(&[], &[("J", "J", -1)], -9), // 31
    v(&[], &[("W", "W", -1)], -3), // 32
    v(&[], &[("°K", "K", -1), ("l", "L", -1)], 0), // 33
    v(&[], &[("V", "V", -1)], 0), // 34
    v(&[], &[("A", "A", -1)], 0), // 35
    v(&[], &[("s", "s", 1)], 0), // 36
    v(&[], &[("s", "s", 1), ("V", "V", -1)], 0), // 37
    v(&[], &[("s", "s", 1), ("A", "A", -1)], 0), // 38
    v(&["Start date of"], &[], 0), // 39
    v(&["VIF contains uncorrected unit or value"], &[], 0), // 3A
    v(&["Accumulation only if value is positive"], &[], 0), // 3B
    v(&["Accumulation only if value is negative"], &[], 0), // 3C
    v(&["Non metric units"], &[], 0), // 3D
    v(&["Value at base conditions"], &[], 0), // 3E
    v(&["OBIS declaration"], &[], 0), // 3F
    v(&["Lower limit value"], &[], 0), // 40
    v(&["Number of exceeds of lower limit value"], &[], 0), // 41
    v(&["Date of begin first lower limit exceed"], &[], 0), // 42
    v(&["Date of end first lower limit exceed"], &[], 0), // 43
    v(&["Reserved"], &[], 0), // 44
    v(&["Reserved"], &[], 0), // 45
    v(&["Date of begin last lower limit exceed"], &[], 0), // 46
    v(&["Date of end last lower limit exceed"], &[], 0), // 47
    v(&["Upper limit value"], &[], 0), // 48
    v(&["Number of exceeds of upper limit value"], &[], 0), // 49
    v(&["Date of begin first upper limit exceed"], &[], 0), // 4A
    v(&["Date of end first upper limit exceed"], &[], 0), // 4B
    v(&["Reserved"], &[], 0), // 4C
    v(&["Reserved"], &[], 0), // 4D
    v(&["Date of begin last upper limit exceed"], &[], 0), // 4E
    v(&["Date of end last upper limit exceed"], &[], 0), // 4F
    v(&["Duration of first lower limit exceed"], &[("s", "s", 1)], 0), // 50
    v(&["Duration of first lower limit exceed"], &[("min", "min", 1)], 0), // 51
    v(&["Duration of first lower limit exceed"], &[("h", "h", 1)], 0), // 52
    v(&["Duration of first lower limit exceed"], &[("day", "d", 1)], 0), // 53
    v(&["Duration of last lower limit exceed"], &[("s", "s", 1)], 0), // 54
    v(&["Duration of last lower limit exceed"], &[("min", "min", 1)], 0), // 55
    v(&["Duration of last lower limit exceed"], &[("h", "h", 1)], 0), // 56
    v(&["Duration of last lower limit exceed"], &[("day", "d", 1)], 0), // 57
    v(&["Duration of first upper limit exceed"], &[("s", "s", 1)], 0), // 58
    v(&["Duration of first upper limit exceed"], &[("min", "min", 1)], 0), // 59
    v(&["Duration of first upper limit exceed"], &[("h", "h", 1)], 0), // 5A
    v(&["Duration of first upper limit exceed"], &[("day", "d", 1)], 0), // 5B
    v(&["Duration of last upper limit exceed"], &[("s", "s", 1)], 0), // 5C
    v(&["Duration of last upper limit exceed"], &[("min", "min", 1)], 0), // 5D
    v(&["Duration of last upper limit exceed"], &[("h", "h", 1)], 0), // 5E
    v(&["Duration of last upper limit exceed"], &[("day", "d", 1)], 0), // 5F
    v(&["Duration of first"], &[("s", "s", 1)], 0), // 60
    v(&["Duration of first"], &[("min", "min", 1)], 0), // 61
    v(&["Duration of first"], &[("h", "h", 1)], 0), // 62
    v(&["Duration of first"], &[("day", "d", 1)], 0), // 63
    v(&["Duration of last"], &[("s", "s", 1)], 0), // 64
    v(&["Duration of last"], &[("min", "min", 1)], 0), // 65
    v(&["Duration of last"], &[("h", "h", 1)], 0), // 66
    v(&["Duration of last"], &[("day", "d", 1)], 0), // 67
    v(&["Value during lower value exceed"], &[], 0), // 68
    v(&["Leakage values"], &[], 0), // 69
    v(&["Date of begin first"], &[], 0), // 6A
    v(&["Date of end first"], &[], 0), // 6B
    v(&["Value during upper value exceed"], &[], 0), // 6C
    v(&["Overflow values"], &[], 0), // 6D
    v(&["Date of begin last"], &[], 0), // 6E
    v(&["Date of end last"], &[], 0), // 6F
    v(&[], &[], -6), // 70
    v(&[], &[], -5), // 71
    v(&[], &[], -4), // 72
    v(&[], &[], -3), // 73
    v(&[], &[], -2), // 74
    v(&[], &[], -1), // 75
    v(&[], &[], 0), // 76
    v(&[], &[], 1), // 77
    v(&[], &[], 0), // 78
    v(&[], &[], 0), // 79
    v(&[], &[], 0), // 7A
    v(&[], &[], 0), // 7B
    v(&["Reserved"], &[], 0), // 7C
    v(&[], &[], 3), // 7D
    v(&["Future value"], &[], 0), // 7E
    v(&["Next VIFE and data of this block are manufacturer specific"], &[], 0), // 7F
];
#[rustfmt::skip]
pub static FC: [Option<Vi>; 128] = [
    v(&["Reserved"], &[], 0), // 00
    v(&["At phase L1"], &[], 0), // 01
    v(&["At phase L2"], &[], 0), // 02
    v(&["At phase L3"], &[], 0), // 03
    v(&["At neutral"], &[], 0), // 04
    v(&["Between phases L1 L2"], &[], 0), // 05
    v(&["Between phases L2 L3"], &[], 0), // 06
    v(&["Between phases L3 L1"], &[], 0), // 07
    v(&["At quadrant1"], &[], 0), // 08
    v(&["At quadrant2"], &[], 0), // 09
    v(&["At quadrant3"], &[], 0), // 0A
    v(&["At quadrant4"], &[], 0), // 0B
    v(&["Delta between import and export"], &[], 0), // 0C
    v(&["Alternative non metric units"], &[], 0), // 0D
    v(&["Secondary sensor measurement"], &[], 0), // 0E
    v(&["Higher resolution register"], &[], 0), // 0F
    v(&["Accumulation of absolute value both positive and negative contribution"], &[], 0), // 10
    v(&["Data presented with type C"], &[], 0), // 11
    v(&["Data presented with type D"], &[], 0), // 12
    v(&["End date"], &[], 0), // 13
    v(&["Direction from communication partner to meter"], &[], 0), // 14
    v(&["Direction from meter to communication partner"], &[], 0), // 15
    v(&["Reserved"], &[], 0), // 16
    v(&["Reserved"], &[], 0), // 17
    v(&["Reserved"], &[], 0), // 18
    v(&["Reserved"], &[], 0), // 19
    v(&["Reserved"], &[], 0), // 1A
    v(&["Reserved"], &[], 0), // 1B
    v(&["Reserved"], &[], 0), // 1C
    v(&["Reserved"], &[], 0), // 1D
    v(&["Reserved"], &[], 0), // 1E
    v(&["Reserved"], &[], 0), // 1F
    v(&["Reserved"], &[], 0), // 20
    v(&["Reserved"], &[], 0), // 21
    v(&["Reserved"], &[], 0), // 22
    v(&["Reserved"], &[], 0), // 23
    v(&["Reserved"], &[], 0), // 24
    v(&["Reserved"], &[], 0), // 25
    v(&["Reserved"], &[], 0), // 26
    v(&["Reserved"], &[], 0), // 27
    v(&["Reserved"], &[], 0), // 28
    v(&["Reserved"], &[], 0), // 29
    v(&["Reserved"], &[], 0), // 2A
    v(&["Reserved"], &[], 0), // 2B
    v(&["Reserved"], &[], 0), // 2C
    v(&["Reserved"], &[], 0), // 2D
    v(&["Reserved"], &[], 0), // 2E
    v(&["Reserved"], &[], 0), // 2F
    v(&["Reserved"], &[], 0), // 30
    v(&["Reserved"], &[], 0), // 31
    v(&["Reserved"], &[], 0), // 32
    v(&["Reserved"], &[], 0), // 33
    v(&["Reserved"], &[], 0), // 34
    v(&["Reserved"], &[], 0), // 35
    v(&["Reserved"], &[], 0), // 36
    v(&["Reserved"], &[], 0), // 37
    v(&["Reserved"], &[], 0), // 38
    v(&["Reserved"], &[], 0), // 39
    v(&["Reserved"], &[], 0), // 3A
    v(&["Reserved"], &[], 0), // 3B
    v(&["Reserved"], &[], 0), // 3C
    v(&["Reserved"], &[], 0), // 3D
    v(&["Reserved"], &[], 0), // 3E
    v(&["Reserved"], &[], 0), // 3F
    v(&["Reserved"], &[], 0), // 40
    v(&["Reserved"], &[], 0), // 41
    v(&["Reserved"], &[], 0), // 42
    v(&["Reserved"], &[], 0), // 43
    v(&["Reserved"], &[], 0), // 44
    v(&["Reserved"], &[], 0), // 45
    v(&["Reserved"], &[], 0), // 46
    v(&["Reserved"], &[], 0), // 47
    v(&["Reserved"], &[], 0), // 48
    v(&["Reserved"], &[], 0), // 49
    v(&["Reserved"], &[], 0), // 4A
    v(&["Reserved"], &[], 0), // 4B
    v(&["Reserved"], &[], 0), // 4C
    v(&["Reserved"], &[], 0), // 4D
    v(&["Reserved"], &[], 0), // 4E
    v(&["Reserved"], &[], 0), // 4F
    v(&["Reserved"], &[], 0), // 50
    v(&["Reserved"], &[], 0), // 51
    v(&["Reserved"], &[], 0), // 52
    v(&["Reserved"], &[], 0), // 53
    v(&["Reserved"], &[], 0), // 54
    v(&["Reserved"], &[], 0), // 55
    v(&["Reserved"], &[], 0), // 56
    v(&["Reserved"], &[], 0), // 57
    v(&["Reserved"], &[], 0), // 58
    v(&["Reserved"], &[], 0), // 59
    v(&["Reserved"], &[], 0), // 5A
    v(&["Reserved"], &[], 0), // 5B
    v(&["Reserved"], &[], 0), // 5C
    v(&["Reserved"], &[], 0), // 5D
    v(&["Reserved"], &[], 0), // 5E
    v(&["Reserved"], &[], 0), // 5F
    v(&["Reserved"], &[], 0), // 60
    v(&["Reserved"], &[], 0), // 61
    v(&["Reserved"], &[], 0), // 62
    v(&["Reserved"], &[], 0), // 63
    v(&["Reserved"], &[], 0), // 64
    v(&["Reserved"], &[], 0), // 65
    v(&["Reserved"], &[], 0), // 66
    v(&["Reserved"], &[], 0), // 67
    v(&["Reserved"], &[], 0), // 68
    v(&["Reserved"], &[], 0), // 69
    v(&["Reserved"], &[], 0), // 6A
    v(&["Reserved"], &[], 0), // 6B
    v(&["Reserved"], &[], 0), // 6C
    v(&["Reserved"], &[], 0), // 6D
    v(&["Reserved"], &[], 0), // 6E
    v(&["Reserved"], &[], 0), // 6F
    v(&["Reserved"], &[], 0), // 70
    v(&["Reserved"], &[], 0), // 71
    v(&["Reserved"], &[], 0), // 72
    v(&["Reserved"], &[], 0), // 73
    v(&["Reserved"], &[], 0), // 74
    v(&["Reserved"], &[], 0), // 75
    v(&["Reserved"], &[], 0), // 76
    v(&["Reserved"], &[], 0), // 77
    v(&["Reserved"], &[], 0), // 78
    v(&["Reserved"], &[], 0), // 79
    v(&["Reserved"], &[], 0), // 7A
    v(&["Reserved"], &[], 0), // 7B
    v(&["Reserved"], &[], 0), // 7C
    v(&["Reserved"], &[], 0), // 7D
    v(&["Reserved"], &[], 0), // 7E
    v(&["Reserved"], &[], 0), // 7F
];
