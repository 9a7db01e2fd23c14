import "./globals.mjs";
import "./front.mjs";
