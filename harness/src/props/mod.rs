pub mod history;
pub mod changes;
pub mod labels;
pub mod builder;
pub mod listing;
pub mod packs;
pub mod kinds;
pub mod faults;
pub mod files;
pub mod lru;
pub mod races;
pub mod shared;
