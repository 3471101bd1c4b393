//! exists so that serde is built for the compiler the analysis uses
